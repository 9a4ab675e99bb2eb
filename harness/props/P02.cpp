// needs: src/coordinates/*.cpp src/utils/*.cpp src/parameters.cpp src/outputs/logger.cpp third_party/concave_fitting.cpp
#include "common.hpp"
#include "utils/angle_utils.hpp"
#include "utils/pose.hpp"
using namespace h;

static bool is_rigid(const matrix44& m)
{
    const matrix33 r = m.block<3, 3>(0, 0);
    return (r * r.transpose() - matrix33::Identity()).norm() < 1e-9 and std::abs(r.determinant() - 1) < 1e-9 and
           m(3, 0) == 0 and m(3, 1) == 0 and m(3, 2) == 0 and std::abs(m(3, 3) - 1) < 1e-12;
}

static void run(Source& s, Ctx& c)
{
    const quaternion q = gen_quaternion(s);
    const double range = s.draw(2) ? 1e5 : 100;
    const vector3 t = gen_vector(s, range);
    c.note("pose ", show(q), " ", show(t.transpose()));
    if (q.angularDistance(quaternion::Identity()) > 1e-3 and t.norm() > 1)
        c.nontrivial();
    const double tol = 1e-9 * (1 + t.norm());

    const CameraToWorldMatrix c2w = utils::compute_camera_to_world_transform(q, t);
    const WorldToCameraMatrix w2c = utils::compute_world_to_camera_transform(q, t);
    PBT_CHECK(c, "rigid", is_rigid(c2w) and is_rigid(w2c), show(c2w), " ", show(w2c));
    // axis convention: camera x right, y down, z forward. World x forward, y left, z up
    matrix44 ref = matrix44::Identity();
    ref.block<3, 3>(0, 0) = reference_axes() * q.toRotationMatrix();
    ref.block<3, 1>(0, 3) = reference_axes() * t;
    PBT_CHECK(c, "convention", near(c2w, ref, 0, tol), "got ", show(c2w), " expected ", show(ref));
    PBT_CHECK(c, "inverse", near(matrix44(c2w * w2c), matrix44::Identity(), 0, 10 * tol) and
                                    near(matrix44(w2c * c2w), matrix44::Identity(), 0, 10 * tol),
              show(matrix44(c2w * w2c)));
    PBT_CHECK(c, "inverse", near(utils::compute_world_to_camera_transform(c2w), w2c, 0, 10 * tol) and
                                    near(utils::compute_camera_to_world_transform(w2c), c2w, 0, 10 * tol),
              "conversion of a matrix");
    PBT_CHECK(c, "accessors", c2w.rotation() == matrix33(c2w.block<3, 3>(0, 0)) and
                                      c2w.translation() == vector3(c2w(0, 3), c2w(1, 3), c2w(2, 3)),
              "");
    // opposite quaternions are the same rotation
    const quaternion nq(-q.w(), -q.x(), -q.y(), -q.z());
    PBT_CHECK(c, "double-cover", near(utils::compute_camera_to_world_transform(nq, t), c2w, 0, tol), "");
    const matrix44 raw = utils::get_transformation_matrix(q, t);
    PBT_CHECK(c, "raw", is_rigid(raw) and near(matrix33(raw.block<3, 3>(0, 0)), q.toRotationMatrix(), 0, 1e-12) and
                                vector3(raw.block<3, 1>(0, 3)) == t,
              show(raw));
    const CameraToWorldMatrix un = utils::compute_camera_to_world_transform_no_correction(q, t);
    const WorldToCameraMatrix unInv = utils::compute_world_to_camera_transform_no_correction(q, t);
    PBT_CHECK(c, "raw", near(un, raw, 0, tol) and near(matrix44(un * unInv), matrix44::Identity(), 0, 10 * tol), show(un));

    // Plane matrices: a point on a plane stays on the transformed plane
    const PlaneCameraToWorldMatrix pc2w = utils::compute_plane_camera_to_world_matrix(c2w);
    const PlaneWorldToCameraMatrix pw2c = utils::compute_plane_world_to_camera_matrix(w2c);
    const vector3 n = gen_direction(s);
    const double d = s.sym(5000);
    const vector4 planeCam(n.x(), n.y(), n.z(), d);
    vector3 e1 = n.unitOrthogonal(), e2 = n.cross(e1);
    const vector3 onPlane = -d * n + s.sym(3000) * e1 + s.sym(3000) * e2;
    const vector4 planeWorld = pc2w * planeCam;
    const vector3 moved = (c2w * onPlane.homogeneous()).head<3>();
    const double ptol = 1e-8 * (1 + t.norm() + std::abs(d) + onPlane.norm());
    PBT_CHECK(c, "plane-matrix", std::abs(planeWorld.head<3>().dot(moved) + planeWorld[3]) <= ptol and
                                         std::abs(planeWorld.head<3>().norm() - 1) < 1e-9,
              "point to plane distance ", planeWorld.head<3>().dot(moved) + planeWorld[3]);
    PBT_CHECK(c, "plane-matrix", near(vector4(pw2c * planeWorld), planeCam, 0, ptol), show((pw2c * planeWorld).transpose()));
    // orientation of the normal is kept
    PBT_CHECK(c, "plane-matrix", near(vector3(planeWorld.head<3>()), vector3(c2w.rotation() * n), 0, 1e-8), "normal");

    // euler angles
    const EulerAngles e(s.sym(M_PI), s.sym(M_PI / 2), s.sym(M_PI));
    const quaternion qe = utils::get_quaternion_from_euler_angles(e);
    const matrix33 refE = (Eigen::AngleAxisd(e.roll, vector3::UnitX()) * Eigen::AngleAxisd(e.pitch, vector3::UnitY()) *
                           Eigen::AngleAxisd(e.yaw, vector3::UnitZ()))
                                  .toRotationMatrix();
    PBT_CHECK(c, "euler", near(qe.toRotationMatrix(), refE, 0, 1e-9) and std::abs(qe.norm() - 1) < 1e-9, show(qe));
    PBT_CHECK(c, "euler", near(utils::get_rotation_matrix_from_euler_angles(e), refE, 0, 1e-9), "");
    const EulerAngles back = utils::get_euler_angles_from_quaternion(q);
    // near the pitch singularity, only a loose comparison is meaningful
    const double pitch = std::asin(std::max(-1.0, std::min(1.0, q.toRotationMatrix()(0, 2))));
    const bool singular = std::abs(std::abs(pitch) - M_PI / 2) < 1e-3;
    c.label(singular ? "pitch singularity" : "regular angles");
    if (not singular)
        PBT_CHECK(c, "euler-round-trip",
                  utils::get_quaternion_from_euler_angles(back).toRotationMatrix().isApprox(q.toRotationMatrix(), 1e-7), show(q),
                  " -> ", back.yaw, " ", back.pitch, " ", back.roll);

    // poses
    const quaternion scaled(q.w() * 3.5, q.x() * 3.5, q.y() * 3.5, q.z() * 3.5);
    utils::Pose pose(t, s.draw(2) ? scaled : q);
    PBT_CHECK(c, "pose", pose.get_position() == t and pose.get_orientation_quaternion().angularDistance(q) < 1e-7 and
                                 std::abs(pose.get_orientation_quaternion().norm() - 1) < 1e-12 and
                                 near(pose.get_orientation_matrix(), q.toRotationMatrix(), 0, 1e-9) and
                                 pose.get_pose_variance() == matrix66::Zero(),
              "");
    const vector6 vec = pose.get_vector();
    const matrix33 fromVec = (Eigen::AngleAxisd(vec[3], vector3::UnitX()) * Eigen::AngleAxisd(vec[4], vector3::UnitY()) *
                              Eigen::AngleAxisd(vec[5], vector3::UnitZ()))
                                     .toRotationMatrix();
    PBT_CHECK(c, "pose-vector", vector3(vec.head<3>()) == t and near(fromVec, q.toRotationMatrix(), 0, 1e-7), show(vec.transpose()));
    const matrix66 var = gen_spd<6>(s, 1e-3, 100);
    pose.set_position_variance(var);
    PBT_CHECK(c, "pose-variance", pose.get_pose_variance() == var and pose.get_position_variance() == matrix33(var.block<3, 3>(0, 0)),
              "");
    PBT_CHECK(c, "pose-variance", utils::Pose(t, q, var).get_pose_variance() == var, "");
    // errors between poses
    const quaternion q2 = s.draw(3) == 0 ? nq : gen_quaternion(s);
    const vector3 t2 = s.draw(4) == 0 ? t : gen_vector(s, range);
    const utils::Pose other(t2, q2);
    PBT_CHECK(c, "position-error", pbt::close(pose.get_position_error(other), (t - t2).norm(), 1e-12, 1e-12) and
                                           pose.get_position_error(other) == other.get_position_error(pose),
              "");
    const matrix33 rel = q.toRotationMatrix().transpose() * q2.toRotationMatrix();
    const double sine = 0.5 * vector3(rel(2, 1) - rel(1, 2), rel(0, 2) - rel(2, 0), rel(1, 0) - rel(0, 1)).norm();
    const double angle = std::atan2(sine, 0.5 * (rel.trace() - 1)) * 180.0 / M_PI;
    PBT_CHECK(c, "rotation-error", std::abs(pose.get_rotation_error(other) - angle) < 1e-4 and
                                           std::abs(pose.get_rotation_error(other) - other.get_rotation_error(pose)) < 1e-6 and
                                           pose.get_rotation_error(pose) < 1e-5,
              "got ", pose.get_rotation_error(other), " expected ", angle);
    // increments
    vector3 p = t;
    matrix33 r = q.toRotationMatrix();
    const int steps = static_cast<int>(s.draw(20));
    for (int i = 0; i < steps; ++i)
    {
        const vector3 dt = gen_vector(s, 100);
        quaternion dq = gen_quaternion(s);
        p += dt;
        r = r * dq.toRotationMatrix();
        if (s.draw(3) == 2)
            dq.coeffs() *= s.real(0.5, 2.0); // same rotation, not normalized
        pose.update(dt, dq);
    }
    PBT_CHECK(c, "pose-update", near(pose.get_position(), p, 1e-9, 1e-9) and near(pose.get_orientation_matrix(), r, 0, 1e-8) and
                                        std::abs(pose.get_orientation_quaternion().norm() - 1) < 1e-9,
              steps, " increments, quaternion norm ", pose.get_orientation_quaternion().norm());
    PBT_CHECK(c, "pose-default", utils::Pose().get_position() == vector3::Zero() and
                                         utils::Pose().get_orientation_matrix() == matrix33::Identity(),
              "");
}

PBT_MAIN((pbt::Property {.id = "P02",
                         .rule = "poses (uniform, quarter turn, tiny rotations; near and far translations), planes, euler angles "
                                 "and increments are generated; non-trivial: rotation over 1e-3 rad and translation over 1 mm",
                         .setup = [](Source&) { sequential(); },
                         .run = run}))
