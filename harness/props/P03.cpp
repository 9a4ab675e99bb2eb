// needs: src/coordinates/*.cpp src/utils/*.cpp src/parameters.cpp src/outputs/logger.cpp third_party/concave_fitting.cpp
#include "common.hpp"
#include "coordinates/plane_coordinates.hpp"
#include "coordinates/point_coordinates.hpp"
using namespace h;

static void run(Source& s, Ctx& c)
{
    const quaternion q = gen_quaternion(s);
    const vector3 t = gen_vector(s, s.draw(2) ? 10000.0 : 200.0);
    const CameraToWorldMatrix c2w = utils::compute_camera_to_world_transform(q, t);
    const WorldToCameraMatrix w2c = utils::compute_world_to_camera_transform(q, t);
    const PlaneCameraToWorldMatrix pc2w = utils::compute_plane_camera_to_world_matrix(c2w);
    const PlaneWorldToCameraMatrix pw2c = utils::compute_plane_world_to_camera_matrix(w2c);

    const vector3 n = gen_direction(s);
    const double d = s.sym(6000);
    const double factor = s.draw(2) ? s.logreal(0.01, 100) : 1.0; // the given normal does not need to be normalized
    const PlaneCameraCoordinates plane(vector3(n * factor), d);
    c.note("plane ", show(n.transpose()), " d ", d, " factor ", factor, " pose ", show(q), " ", show(t.transpose()));
    if (std::abs(d) > 1 and q.angularDistance(quaternion::Identity()) > 1e-3 and t.norm() > 1)
        c.nontrivial();
    const double tol = 1e-8 * (1 + t.norm() + std::abs(d));

    PBT_CHECK(c, "unit-normal", std::abs(plane.get_normal().norm() - 1) < 1e-12 and near(plane.get_normal(), n, 0, 1e-9) and
                                        plane.get_d() == d,
              show(plane.get_parametrization().transpose()));
    const PlaneCameraCoordinates same(vector4(n.x() * factor, n.y() * factor, n.z() * factor, d));
    PBT_CHECK(c, "unit-normal", near(same.get_parametrization(), plane.get_parametrization(), 0, 1e-9), "");
    PlaneCameraCoordinates copy;
    copy = plane;
    PlaneCameraCoordinates copy2(plane);
    PBT_CHECK(c, "copy", near(copy.get_parametrization(), plane.get_parametrization(), 0, 1e-12) and
                                 near(copy2.get_parametrization(), plane.get_parametrization(), 0, 1e-12),
              "");
    PBT_CHECK(c, "center", near(plane.get_center(), vector3(-d * n), 1e-9, 1e-9) and
                                   std::abs(plane.get_point_distance(plane.get_center())) <= tol,
              show(plane.get_center().transpose()));
    PBT_CHECK(c, "nan", not plane.hasNaN() and PlaneCameraCoordinates(n, std::nan("")).hasNaN() and
                                PlaneCameraCoordinates(vector3(n.x(), std::nan(""), n.z()), d).hasNaN(),
              "");

    // points keep their signed distance to the plane through the change of frame
    const vector3 e1 = n.unitOrthogonal(), e2 = n.cross(e1);
    const double height = s.draw(3) ? s.sym(3000) : 0.0;
    const vector3 pc = (height - d) * n + s.sym(3000) * e1 + s.sym(3000) * e2;
    PBT_CHECK(c, "point-distance", pbt::close(plane.get_point_distance(pc), height, 1e-9, tol), plane.get_point_distance(pc), " ",
              height);
    const WorldCoordinate pw = CameraCoordinate(pc.x(), pc.y(), pc.z()).to_world_coordinates(c2w);
    const PlaneWorldCoordinates world = plane.to_world_coordinates(pc2w);
    PBT_CHECK(c, "world-distance", std::abs(world.get_point_distance(pw) - height) <= 2 * tol + 1e-8 * pc.norm(), "distance in camera ",
              height, " in world ", world.get_point_distance(pw));
    PBT_CHECK(c, "world-normal", std::abs(world.get_normal().norm() - 1) < 1e-12 and
                                         near(world.get_normal(), vector3(reference_axes() * q.toRotationMatrix() * n), 0, 1e-9),
              show(world.get_normal().transpose()));
    const PlaneCameraCoordinates back = world.to_camera_coordinates(pw2c);
    PBT_CHECK(c, "round-trip", near(back.get_normal(), n, 0, 1e-9) and std::abs(back.get_d() - d) <= tol,
              show(back.get_parametrization().transpose()), " expected ", show(n.transpose()), " ", d);

    // angle between planes does not depend on the frame
    const vector3 n2 = s.draw(4) == 0 ? vector3(-n) : gen_direction(s);
    const PlaneCameraCoordinates plane2(n2, s.sym(6000));
    const PlaneWorldCoordinates world2 = plane2.to_world_coordinates(pc2w);
    PBT_CHECK(c, "cos-angle", std::abs(plane.get_cos_angle(plane2) - n.dot(n2)) < 1e-9 and
                                      std::abs(world.get_cos_angle(world2) - n.dot(n2)) < 1e-9,
              "");
    // distances between planes
    const vector4 zero4 = world.get_signed_distance(plane, pw2c);
    const vector3 zero3 = world.get_reduced_signed_distance(plane, pw2c);
    PBT_CHECK(c, "distance-zero", zero4.norm() <= tol and zero3.norm() <= 10 * tol, show(zero4.transpose()), " ",
              show(zero3.transpose()));
    const vector4 dist = world.get_signed_distance(plane2, pw2c);
    PBT_CHECK(c, "distance", std::abs(dist[3] - (plane2.get_d() - d)) <= tol and
                                     near(vector3(dist.head<3>()), vector3(n2 - n), 0, 1e-8),
              show(dist.transpose()), " expected ", show((n2 - n).transpose()), " ", plane2.get_d() - d);
    const vector3 rdist = world.get_reduced_signed_distance(plane2, pw2c);
    PBT_CHECK(c, "reduced-distance", near(rdist, vector3(plane2.get_d() * n2 - d * n), 0, 10 * tol), show(rdist.transpose()));
}

PBT_MAIN((pbt::Property {.id = "P03",
                         .rule = "a plane (normal of any length, any signed distance), points at a known height over it, a second "
                                 "plane and a camera pose; non-trivial: the plane is over 1 mm from the origin and the pose has a "
                                 "rotation and a translation",
                         .setup = [](Source&) { sequential(); },
                         .run = run}))
