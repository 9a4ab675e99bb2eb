// needs: src/coordinates/*.cpp src/utils/*.cpp src/parameters.cpp src/outputs/logger.cpp third_party/concave_fitting.cpp
#include "common.hpp"
#include "coordinates/basis_changes.hpp"
#include "coordinates/inverse_depth_coordinates.hpp"
#include "coordinates/point_coordinates.hpp"
using namespace h;

template<int M, int N, class F>
Eigen::Matrix<double, M, N> jacobian(F f, const Eigen::Matrix<double, N, 1>& x, const Eigen::Matrix<double, N, 1>& steps)
{
    Eigen::Matrix<double, M, N> j;
    for (int i = 0; i < N; ++i)
    {
        Eigen::Matrix<double, N, 1> a = x, b = x;
        a[i] -= steps[i];
        b[i] += steps[i];
        j.col(i) = (f(b) - f(a)) / (2 * steps[i]);
    }
    return j;
}

// distance of a point to a line
static double line_distance(const vector3& p, const vector3& o, const vector3& dir)
{
    const vector3 d = dir.normalized();
    return ((p - o) - d * d.dot(p - o)).norm();
}

static void run(Source& s, Ctx& c)
{
    const Camera& k = camera();
    // ---- spherical coordinates
    const vector3 v = gen_direction(s) * s.logreal(0.01, 1e5);
    const Spherical sph = Spherical::from(Cartesian(v));
    c.note("vector ", show(v.transpose()), " spherical ", show(sph.vec().transpose()));
    PBT_CHECK(c, "spherical-range", sph.p >= 0 and sph.theta >= 0 and sph.theta <= M_PI and sph.phi >= -M_PI and sph.phi <= M_PI,
              show(sph.vec().transpose()));
    PBT_CHECK(c, "spherical-round-trip", near(Cartesian::from(sph).vec(), v, 1e-9, 0), show(Cartesian::from(sph).vec().transpose()));
    const double p = s.logreal(0.01, 1e5), theta = s.real(0, M_PI), phi = s.real(-M_PI, M_PI);
    const vector3 refC(p * sin(theta) * cos(phi), p * sin(theta) * sin(phi), p * cos(theta));
    matrix33 jc, js;
    const vector3 gotC = Cartesian::from(Spherical(p, theta, phi), jc).vec();
    PBT_CHECK(c, "spherical", near(gotC, refC, 1e-9, 0) and near(Cartesian::from(Spherical(p, theta, phi)).vec(), refC, 1e-9, 0),
              show(gotC.transpose()));
    const auto toC = [](const vector3& x) {
        return Cartesian::from(Spherical(x)).vec();
    };
    const matrix33 refJc = jacobian<3, 3>(toC, vector3(p, theta, phi), vector3(1e-5 * p, 1e-5, 1e-5));
    PBT_CHECK(c, "cartesian-jacobian", near(jc, refJc, 1e-6, 1e-6), "got ", show(jc), " expected ", show(refJc));
    const double horizontal = std::hypot(v.x(), v.y()) / v.norm();
    const bool cut = v.x() < 0 and std::abs(v.y()) < 1e-2 * v.norm();
    if (horizontal > 1e-2 and not cut)
    {
        const Spherical viaJ = Spherical::from(Cartesian(v), js);
        PBT_CHECK(c, "spherical", near(viaJ.vec(), sph.vec(), 1e-12, 1e-12), "");
        const auto toS = [](const vector3& x) {
            return Spherical::from(Cartesian(x)).vec();
        };
        const matrix33 refJs = jacobian<3, 3>(toS, v, vector3(vector3::Constant(1e-6 * v.norm())));
        for (int r = 0; r < 3; ++r)
            PBT_CHECK(c, "spherical-jacobian", near(js.row(r), refJs.row(r), 1e-4, 1e-9), "row ", r, " got ", show(js), " expected ",
                      show(refJs));
    }

    // ---- inverse depth points
    const quaternion q = gen_quaternion(s);
    const vector3 t = gen_vector(s, 3000);
    const CameraToWorldMatrix c2w = utils::compute_camera_to_world_transform(q, t);
    const WorldToCameraMatrix w2c = utils::compute_world_to_camera_transform(q, t);
    const vector3 originV = gen_vector(s, 3000);
    const WorldCoordinate origin(originV.x(), originV.y(), originV.z());
    const vector3 pointV = originV + v;
    const WorldCoordinate point(pointV.x(), pointV.y(), pointV.z());
    const InverseDepthWorldPoint inv = InverseDepthWorldPoint::from_cartesian(point, origin);
    const double tol = 1e-9 * (1 + pointV.norm() + originV.norm()) + 1e-9 * v.norm();
    if (v.norm() > 10 and horizontal > 1e-2)
        c.nontrivial();
    PBT_CHECK(c, "inverse-depth", pbt::close(inv.get_inverse_depth(), 1.0 / v.norm(), 1e-6, 0) and
                                          near(inv.get_bearing_vector(), v.normalized(), 0, 1e-6) and
                                          near(inv.get_first_observation(), originV, 1e-12, 0) and
                                          inv.get_theta() >= 0 and inv.get_theta() <= M_PI and std::abs(inv.get_phi()) <= M_PI,
              inv.get_inverse_depth());
    PBT_CHECK(c, "inverse-depth-round-trip", near(inv.to_world_coordinates(), pointV, 0, 1e3 * tol), show(inv.to_world_coordinates().transpose()),
              " expected ", show(pointV.transpose()));
    // jacobians
    if (horizontal > 1e-2 and not cut and v.norm() > 1)
    {
        Eigen::Matrix<double, 6, 3> jf;
        (void)InverseDepthWorldPoint::from_cartesian(point, origin, jf);
        const auto toInv = [&](const vector3& x) {
            const InverseDepthWorldPoint i = InverseDepthWorldPoint::from_cartesian(WorldCoordinate(x.x(), x.y(), x.z()), origin);
            return vector3(i.get_inverse_depth(), i.get_theta(), i.get_phi());
        };
        const matrix33 refJ = jacobian<3, 3>(toInv, pointV, vector3(vector3::Constant(1e-4 * v.norm())));
        for (int r = 0; r < 3; ++r)
            PBT_CHECK(c, "from-cartesian-jacobian", near(jf.row(InverseDepthWorldPoint::inverseDepthIndex + r), refJ.row(r), 1e-3, 1e-9 / v.norm()),
                      "row ", r, " got ", show(jf), " expected ", show(refJ));
        PBT_CHECK(c, "from-cartesian-jacobian", jf.allFinite(), show(jf));
    }
    {
        const double id = s.logreal(1e-5, 1), th = s.real(0.01, M_PI - 0.01), ph = s.real(-M_PI + 0.01, M_PI - 0.01);
        const InverseDepthWorldPoint i(origin, id, th, ph);
        Eigen::Matrix<double, 3, 6> jw;
        const WorldCoordinate w = i.to_world_coordinates(jw);
        const vector3 refW = originV + vector3(sin(th) * cos(ph), sin(th) * sin(ph), cos(th)) / id;
        PBT_CHECK(c, "inverse-depth-to-world", near(w, refW, 1e-9, 1e-9) and near(i.to_world_coordinates(), refW, 1e-9, 1e-9), show(w.transpose()));
        const auto toW = [](const vector6& x) {
            return vector3(InverseDepthWorldPoint(WorldCoordinate(x[0], x[1], x[2]), x[3], x[4], x[5]).to_world_coordinates());
        };
        vector6 x, st;
        x << originV, id, th, ph;
        st << 1e-2, 1e-2, 1e-2, id * 1e-5, 1e-5, 1e-5;
        const Eigen::Matrix<double, 3, 6> refJ = jacobian<3, 6>(toW, x, st);
        for (int col = 0; col < 6; ++col)
            PBT_CHECK(c, "to-world-jacobian", near(jw.col(col), refJ.col(col), 1e-4, col < 3 ? 1e-5 : 1e-3), "column ", col, " got ", show(jw),
                      " expected ", show(refJ));

        // uncertainty interval along the bearing: closest <= estimate <= furthest, all in front of the first observation
        const double sd = s.draw(3) == 0 ? 0.0 : id * s.real(0, 1.0);
        const vector3 far = i.get_furthest_estimation(sd), close = i.get_closest_estimation(sd);
        const vector3 bearing = i.get_bearing_vector();
        const double df = (far - originV).dot(bearing), dc = (close - originV).dot(bearing), d0 = 1.0 / id;
        c.label(id - 3 * sd > 1e-9 ? "bounded interval" : "unbounded interval");
        const double itol = 1e-6 * (d0 + originV.norm());
        PBT_CHECK(c, "estimation-order", dc > 0 and dc <= d0 + itol and df >= d0 - itol, "closest ", dc, " estimate ", d0, " furthest ", df,
                  " inverse depth ", id, " standard deviation ", sd);
        PBT_CHECK(c, "estimation-closest", pbt::close(dc, 1.0 / (id + 3 * sd), 1e-6, itol), "closest ", dc, " expected ", 1.0 / (id + 3 * sd));
        if (id - 3 * sd > 1e-6)
            PBT_CHECK(c, "estimation-furthest", pbt::close(df, 1.0 / (id - 3 * sd), 1e-5, itol), "furthest ", df, " expected ",
                      1.0 / (id - 3 * sd));
        else
            PBT_CHECK(c, "estimation-furthest", df >= 1e5, "furthest ", df);
        PBT_CHECK(c, "estimation-bearing", line_distance(close, originV, bearing) <= itol and
                                                   line_distance(far, originV, bearing) <= 1e-6 * (std::abs(df) + originV.norm()),
                  "");

        // the projected segment starts at the projection of the furthest and ends at the one of the closest
        const CameraCoordinate farCam = WorldCoordinate(far.x(), far.y(), far.z()).to_camera_coordinates(w2c);
        const CameraCoordinate closeCam = WorldCoordinate(close.x(), close.y(), close.z()).to_camera_coordinates(w2c);
        if (farCam.z() > 1 and closeCam.z() > 1 and id - 3 * sd > 1e-6)
        {
            c.label("projected segment");
            utils::Segment<2> s2;
            utils::Segment<3> s3;
            PBT_CHECK(c, "segment", i.to_screen_coordinates(w2c, sd * sd, s2) and i.to_screen_coordinates(w2c, sd * sd, s3), "refused");
            ScreenCoordinate fs, cs;
            c.require(farCam.to_screen_coordinates(fs) and closeCam.to_screen_coordinates(cs));
            const double stol = 1e-5 * (1 + fs.head<2>().norm() + cs.head<2>().norm()) * (1 + farCam.norm() / farCam.z() + closeCam.norm() / closeCam.z());
            const bool straight = near(s2.get_start_point(), fs.get_2D(), 0, stol) and near(s2.get_end_point(), cs.get_2D(), 0, stol);
            const bool swapped = near(s2.get_end_point(), fs.get_2D(), 0, stol) and near(s2.get_start_point(), cs.get_2D(), 0, stol);
            PBT_CHECK(c, "segment", straight or swapped, show(s2.get_start_point().transpose()), " ", show(s2.get_end_point().transpose()),
                      " expected ", show(fs.transpose()), " ", show(cs.transpose()));
            const bool straight3 = near(vector2(s3.get_start_point().head<2>()), fs.get_2D(), 0, stol) and
                                   near(vector2(s3.get_end_point().head<2>()), cs.get_2D(), 0, stol) and
                                   pbt::close(s3.get_start_point().z(), farCam.z(), 1e-6, 1e-6) and
                                   pbt::close(s3.get_end_point().z(), closeCam.z(), 1e-6, 1e-6);
            const bool swapped3 = near(vector2(s3.get_end_point().head<2>()), fs.get_2D(), 0, stol) and
                                  near(vector2(s3.get_start_point().head<2>()), cs.get_2D(), 0, stol);
            PBT_CHECK(c, "segment", straight3 or swapped3, "3D");
            // the distance of an observation to that segment: the vector from its line to the observation
            const vector2 obs(s.real(0, k.w1), s.real(0, k.h1));
            const vector2 dir = cs.get_2D() - fs.get_2D();
            if (dir.norm() > 1 and stol < 1e-2)
            {
                const vector2 u = dir.normalized();
                const vector2 rel = obs - fs.get_2D();
                const vector2 perp = rel - u * u.dot(rel);
                const vector2 got = i.compute_signed_screen_distance(ScreenCoordinate2D(obs), sd * sd, w2c);
                const double along = u.dot(rel);
                if (along >= 0 and along <= dir.norm())
                    PBT_CHECK(c, "screen-distance", near(got, perp, 0, 1e-2 + 10 * stol * (1 + rel.norm() / dir.norm())), "got ", show(got.transpose()), " expected ",
                              show(perp.transpose()));
                // an observation which is on the segment has a distance of 0
                const vector2 on = fs.get_2D() + s.real(0, 1) * dir;
                PBT_CHECK(c, "screen-distance-zero", i.compute_signed_screen_distance(ScreenCoordinate2D(on), sd * sd, w2c).norm() <= 1e-2 + 10 * stol, "");
            }
        }

        // line to line distance
        const vector3 oo = gen_vector(s, 3000), od = gen_direction(s);
        const Spherical os = Spherical::from(Cartesian(od));
        const InverseDepthWorldPoint other(WorldCoordinate(oo.x(), oo.y(), oo.z()), s.logreal(1e-5, 1), os.theta, os.phi);
        const vector3 cr = bearing.cross(od);
        const vector3 dist = i.compute_signed_distance(other);
        if (cr.norm() > 1e-3)
        {
            const vector3 nn = cr.normalized();
            const vector3 ref = nn * nn.dot(originV - oo);
            PBT_CHECK(c, "line-distance", near(dist, ref, 1e-6, 1e-6 / cr.norm() * (1 + originV.norm() + oo.norm()) * 1e-3 + 1e-6), "got ", show(dist.transpose()),
                      " expected ", show(ref.transpose()));
            // exchanging the lines changes the sign
            PBT_CHECK(c, "line-distance-symmetry", near(vector3(-other.compute_signed_distance(i)), dist, 1e-6, 1e-5 / cr.norm()), "");
        }
        const InverseDepthWorldPoint parallel(WorldCoordinate(oo.x(), oo.y(), oo.z()), 0.01, th, ph);
        PBT_CHECK(c, "parallel-distance", pbt::close(i.compute_signed_distance(parallel).norm(), line_distance(oo, originV, bearing), 1e-9, 1e-6), "");
    }

    // ---- observations
    const double u = s.real(0, k.w1), vv = s.real(0, k.h1);
    const InverseDepthWorldPoint obs(ScreenCoordinate2D(u, vv), c2w);
    const vector3 camOrigin = reference_axes() * t;
    const vector3 ray = (reference_axes() * q.toRotationMatrix() * vector3((u - k.cx1) / k.fx1, (vv - k.cy1) / k.fy1, 1.0)).normalized();
    PBT_CHECK(c, "observation", near(obs.get_first_observation(), camOrigin, 1e-9, 1e-9) and near(obs.get_bearing_vector(), ray, 0, 1e-7) and
                                        pbt::close(obs.get_inverse_depth(), 0.5e-3, 1e-9, 0),
              "bearing ", show(obs.get_bearing_vector().transpose()), " expected ", show(ray.transpose()), " inverse depth ",
              obs.get_inverse_depth());
    ScreenCoordinate reproj;
    PBT_CHECK(c, "observation", obs.to_world_coordinates().to_screen_coordinates(w2c, reproj) and
                                        near(reproj.get_2D(), vector2(u, vv), 0, 1e-3) and reproj.z() > 0,
              show(reproj.transpose()));
    const vector3 cv((u - k.cx1) / k.fx1, (vv - k.cy1) / k.fy1, 1.0);
    const double depth = s.real(41, 6000);
    const InverseDepthWorldPoint obs3(CameraCoordinate(cv.x() * depth, cv.y() * depth, depth), c2w);
    PBT_CHECK(c, "observation", near(obs3.to_world_coordinates(), vector3(reference_axes() * (q.toRotationMatrix() * (cv * depth) + t)), 1e-6, 1e-3) and
                                        near(obs3.get_first_observation(), camOrigin, 1e-9, 1e-9),
              "");
    PBT_CHECK(c, "observation-distance", obs.compute_signed_distance(ScreenCoordinate2D(u, vv), w2c).norm() < 1e-3,
              obs.compute_signed_distance(ScreenCoordinate2D(u, vv), w2c).norm());
    // ---- refusals
    PBT_CHECK(c, "refusal", throws([&]() { InverseDepthWorldPoint(origin, -1e-3 - s.real(0, 1), 1, 1); }) and
                                    throws([&]() { InverseDepthWorldPoint(origin, 1e-3, -1e-3, 1); }) and
                                    throws([&]() { InverseDepthWorldPoint(origin, 1e-3, M_PI + 1e-3 + s.real(0, 3), 1); }) and
                                    throws([&]() { InverseDepthWorldPoint(origin, 1e-3, 1, M_PI + 1e-3 + s.real(0, 3)); }) and
                                    throws([&]() { InverseDepthWorldPoint(origin, 1e-3, 1, -M_PI - 1e-3); }),
              "an out of range parameter was accepted");
}

PBT_MAIN((pbt::Property {.id = "P04",
                         .rule = "vectors of any direction and length, first observation points, inverse depths with a standard "
                                 "deviation, camera poses and observed pixels; non-trivial: the point is over 10 mm from its first "
                                 "observation and out of the polar axis",
                         .setup = camera_setup,
                         .run = run,
                         .describeSetup = describe_camera}))
