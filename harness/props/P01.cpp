// needs: src/coordinates/point_coordinates.cpp src/utils/*.cpp src/parameters.cpp src/outputs/logger.cpp src/coordinates/*.cpp third_party/concave_fitting.cpp
#include "common.hpp"
#include "coordinates/point_coordinates.hpp"
using namespace h;

static void run(Source& s, Ctx& c)
{
    const Camera& k = camera();
    const quaternion q = gen_quaternion(s);
    const vector3 t = gen_vector(s, s.draw(2) ? 10000.0 : 200.0);
    const CameraToWorldMatrix c2w = utils::compute_camera_to_world_transform(q, t);
    const WorldToCameraMatrix w2c = utils::compute_world_to_camera_transform(q, t);
    // the reference transformation, from the documented convention
    const matrix33 R = reference_axes() * q.normalized().toRotationMatrix();
    const vector3 T = reference_axes() * t;

    // a measured pixel with its depth
    double u = s.real(0, k.w1), v = s.real(0, k.h1);
    const bool outside = s.draw(4) == 3;
    if (outside)
    {
        u = s.real(0, 4.0 * k.w1);
        v = s.real(0, 4.0 * k.h1);
    }
    const double z = s.draw(3) == 0 ? s.logreal(1, 65535) : s.real(41, 6000);
    const ScreenCoordinate screen(u, v, z);
    c.note("pixel ", u, " ", v, " depth ", z, " pose ", show(q), " ", show(t.transpose()));
    if (q.angularDistance(quaternion::Identity()) > 1e-3 and t.norm() > 1)
        c.nontrivial();
    c.label(outside ? "pixel anywhere" : "pixel in image");

    // pinhole model
    const vector3 refCam((u - k.cx1) / k.fx1 * z, (v - k.cy1) / k.fy1 * z, z);
    const CameraCoordinate cam = screen.to_camera_coordinates();
    PBT_CHECK(c, "screen-to-camera", near(cam, refCam, 1e-9, 1e-9), "got ", show(cam.transpose()), " expected ",
              show(refCam.transpose()));
    const vector3 refWorld = R * refCam + T;
    const WorldCoordinate world = screen.to_world_coordinates(c2w);
    const WorldCoordinate world2 = cam.to_world_coordinates(c2w);
    const double scale = 1e-9 * (1 + refCam.norm() + T.norm());
    PBT_CHECK(c, "screen-to-world", near(world, refWorld, 0, scale), "got ", show(world.transpose()), " expected ",
              show(refWorld.transpose()));
    PBT_CHECK(c, "camera-to-world", near(world2, refWorld, 0, scale), "got ", show(world2.transpose()), " expected ",
              show(refWorld.transpose()));
    // and back
    const CameraCoordinate camBack = world.to_camera_coordinates(w2c);
    PBT_CHECK(c, "world-to-camera", near(camBack, refCam, 0, scale), "got ", show(camBack.transpose()), " expected ",
              show(refCam.transpose()));
    ScreenCoordinate back;
    PBT_CHECK(c, "projection-refused", world.to_screen_coordinates(w2c, back), "a point in front of the camera");
    const double pixTol = 1e-6 + 1e3 * scale / z * std::max(k.fx1, k.fy1);
    PBT_CHECK(c, "round-trip", std::abs(back.x() - u) <= pixTol and std::abs(back.y() - v) <= pixTol and
                                       std::abs(back.z() - z) <= 1e3 * scale,
              "pixel ", u, " ", v, " ", z, " came back as ", show(back.transpose()));
    ScreenCoordinate2D back2;
    PBT_CHECK(c, "projection-refused", world.to_screen_coordinates(w2c, back2), "2D");
    PBT_CHECK(c, "round-trip-2d", std::abs(back2.x() - u) <= pixTol and std::abs(back2.y() - v) <= pixTol, u, " ", v,
              " came back as ", show(back2.transpose()));
    ScreenCoordinate cback;
    ScreenCoordinate2D cback2;
    PBT_CHECK(c, "projection-refused", cam.to_screen_coordinates(cback) and cam.to_screen_coordinates(cback2), "camera");
    PBT_CHECK(c, "round-trip-camera", near(cback, screen, 1e-9, 1e-7) and near(cback2, screen.get_2D(), 1e-9, 1e-7),
              show(cback.transpose()));
    // normalized image plane
    const ScreenCoordinate2D s2(u, v);
    const CameraCoordinate2D n2 = s2.to_camera_coordinates();
    PBT_CHECK(c, "screen-to-camera-2d",
              pbt::close(n2.x(), (u - k.cx1) / k.fx1, 1e-9, 1e-9) and pbt::close(n2.y(), (v - k.cy1) / k.fy1, 1e-9, 1e-9),
              show(n2.transpose()));
    ScreenCoordinate2D n2back;
    PBT_CHECK(c, "round-trip-2d", n2.to_screen_coordinates(n2back) and near(n2back, s2, 1e-9, 1e-7), show(n2back.transpose()));

    // visibility
    const double m = 1e-6;
    const bool inside = u > m and u < k.w1 - m and v > m and v < k.h1 - m;
    const bool out = u > k.w1 + m or v > k.h1 + m;
    if (inside)
        PBT_CHECK(c, "boundaries", screen.is_in_screen_boundaries() and s2.is_in_screen_boundaries(), u, " ", v);
    if (out)
        PBT_CHECK(c, "boundaries", not screen.is_in_screen_boundaries() and not s2.is_in_screen_boundaries(), u, " ", v);
    const ScreenCoordinate left(-1e-3 - s.real(0, 100), v, z), top(u, -1e-3 - s.real(0, 100), z), behind(u, v, -z);
    PBT_CHECK(c, "boundaries", not left.is_in_screen_boundaries() and not top.is_in_screen_boundaries() and
                                       not behind.is_in_screen_boundaries() and
                                       not left.get_2D().is_in_screen_boundaries() and
                                       not top.get_2D().is_in_screen_boundaries(),
              "a point out of the image, or behind the camera, is reported as visible");
    // what is not a measurement is refused
    PBT_CHECK(c, "refusal", throws([&]() { (void)left.to_camera_coordinates(); }) and
                                    throws([&]() { (void)top.to_camera_coordinates(); }) and
                                    throws([&]() { (void)ScreenCoordinate(u, v, 0.0).to_camera_coordinates(); }),
              "a negative pixel or a zero depth was accepted");

    // any world point, behind or in front
    const vector3 dirCam(s.sym(5000), s.sym(5000), s.sym(5000));
    const vector3 anyW = R * dirCam + T;
    const WorldCoordinate any(anyW.x(), anyW.y(), anyW.z());
    const double anyScale = 1e-9 * (1 + dirCam.norm() + T.norm());
    if (std::abs(dirCam.z()) > 0.1)
    {
        c.label(dirCam.z() > 0 ? "world point in front" : "world point behind");
        ScreenCoordinate p;
        PBT_CHECK(c, "projection-refused", any.to_screen_coordinates(w2c, p), "any");
        const double ru = dirCam.x() / dirCam.z() * k.fx1 + k.cx1, rv = dirCam.y() / dirCam.z() * k.fy1 + k.cy1;
        const double tol = 1e-6 + 1e-9 * (std::abs(ru) + std::abs(rv)) +
                           10 * anyScale / std::abs(dirCam.z()) * (std::abs(ru) + std::abs(rv) + k.fx1 + k.fy1);
        PBT_CHECK(c, "projection", std::abs(p.x() - ru) <= tol and std::abs(p.y() - rv) <= tol and
                                           std::abs(p.z() - dirCam.z()) <= 100 * anyScale,
                  "got ", show(p.transpose()), " expected ", ru, " ", rv, " ", dirCam.z());
        if (dirCam.z() < 0)
            PBT_CHECK(c, "boundaries", not p.is_in_screen_boundaries(), "a point behind the camera is visible");
        // reprojection distances
        const vector2 sd = any.get_signed_distance_2D_px(s2, w2c);
        PBT_CHECK(c, "signed-distance-px", std::abs(sd.x() - (u - ru)) <= tol and std::abs(sd.y() - (v - rv)) <= tol,
                  "got ", show(sd.transpose()), " expected ", u - ru, " ", v - rv);
        const double d = any.get_distance_px(s2, w2c);
        PBT_CHECK(c, "distance-px", std::abs(d - (std::abs(u - ru) + std::abs(v - rv))) <= 2 * tol, "got ", d, " expected ",
                  std::abs(u - ru) + std::abs(v - rv));
        PBT_CHECK(c, "distance-px-zero", world.get_distance_px(s2, w2c) <= 2 * pixTol, "distance of a point to itself");
    }
    const vector3 sdm = any.get_signed_distance_mm(screen, c2w);
    PBT_CHECK(c, "signed-distance-mm", near(sdm, vector3(anyW - refWorld), 0, 2 * (scale + anyScale)), show(sdm.transpose()));
    PBT_CHECK(c, "distance-mm",
              std::abs(any.get_distance_mm(screen, c2w) - (anyW - refWorld).lpNorm<1>()) <= 4 * (scale + anyScale), "");
    const vector3 sdw = any.get_signed_distance_mm(world);
    PBT_CHECK(c, "signed-distance-mm", near(sdw, vector3(anyW - refWorld), 0, 2 * (scale + anyScale)), show(sdw.transpose()));
    PBT_CHECK(c, "distance-mm", std::abs(any.get_distance_mm(world) - world.get_distance_mm(any)) <= 1e-9 and
                                        std::abs(any.get_distance_mm(world) - (anyW - refWorld).lpNorm<1>()) <=
                                                4 * (scale + anyScale),
              "");
    // a point on the optical center has no projection, and nothing that is returned is not a number
    {
        ScreenCoordinate p(-7, -7, -7);
        const CameraCoordinate flat(s.draw(3) ? dirCam.x() : 0.0, s.draw(3) ? dirCam.y() : 0.0, 0.0);
        if (flat.to_screen_coordinates(p))
            PBT_CHECK(c, "nan-projection", not p.hasNaN() and not p.is_in_screen_boundaries(), show(p.transpose()));
        else
            PBT_CHECK(c, "nan-projection", p.x() == -7, "output written by a refused projection");
    }

    // range of the sensor
    const double depth = s.pick(std::vector<double> {39.0, 41.0, 5999.0, 6001.0, 0.0, -100.0, 1e9}) + s.real(0, 0.5);
    PBT_CHECK(c, "depth-range", is_depth_valid(depth) == (depth > 40 and depth <= 6000), depth);
    // homogeneous coordinates
    const double w = s.draw(2) ? s.real(0.1, 10) : -s.real(0.1, 10);
    const vector4 hom(refCam.x() * w, refCam.y() * w, refCam.z() * w, w);
    PBT_CHECK(c, "homogeneous", near(CameraCoordinate(hom), refCam, 1e-9, 1e-9), "");
}

PBT_MAIN((pbt::Property {.id = "P01",
                         .rule = "a pixel (in or out of the image), a depth, a camera pose, a free world point and a camera "
                                 "configuration are generated; non-trivial: the pose has a rotation over 1e-3 rad and a "
                                 "translation over 1 mm",
                         .setup = camera_setup,
                         .run = run,
                         .describeSetup = describe_camera}))
