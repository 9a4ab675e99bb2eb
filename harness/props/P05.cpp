// needs: src/coordinates/*.cpp src/utils/*.cpp src/parameters.cpp src/outputs/logger.cpp third_party/concave_fitting.cpp
#include "common.hpp"
#include "coordinates/plane_coordinates.hpp"
#include "coordinates/point_coordinates.hpp"
#include "utils/covariances.hpp"
using namespace h;

template<int N> bool psd(const Eigen::Matrix<double, N, N>& m)
{
    if (not m.allFinite() or (m - m.transpose()).norm() > 1e-9 * (1e-300 + m.norm()))
        return false;
    Eigen::SelfAdjointEigenSolver<Eigen::Matrix<double, N, N>> e(m);
    return e.eigenvalues().minCoeff() >= -1e-9 * m.norm();
}

// central differences
template<int M, int N, class F> Eigen::Matrix<double, M, N> jacobian(F f, const Eigen::Matrix<double, N, 1>& x)
{
    Eigen::Matrix<double, M, N> j;
    for (int i = 0; i < N; ++i)
    {
        const double step = 1e-5 * std::max(1.0, std::abs(x[i]));
        Eigen::Matrix<double, N, 1> a = x, b = x;
        a[i] -= step;
        b[i] += step;
        j.col(i) = (f(b) - f(a)) / (2 * step);
    }
    return j;
}

static void run(Source& s, Ctx& c)
{
    const Camera& k = camera();
    const quaternion q = gen_quaternion(s);
    const vector3 t = gen_vector(s, 5000);
    const CameraToWorldMatrix c2w = utils::compute_camera_to_world_transform(q, t);
    const WorldToCameraMatrix w2c = utils::compute_world_to_camera_transform(q, t);
    const matrix33 R = reference_axes() * q.toRotationMatrix();

    // depth quantization: positive, grows with the depth, follows the sensor model
    const double z1 = s.real(1, 8000), z2 = z1 + s.real(0, 2000);
    const double q1 = utils::get_depth_quantization(z1), q2 = utils::get_depth_quantization(z2);
    PBT_CHECK(c, "quantization", q1 > 0 and q2 >= q1 and q1 >= 0.5 - 1e-12, z1, " ", q1, " ", q2);
    const double model = -0.53 + 0.74 * z1 / 1000 + 2.73 * z1 / 1000 * z1 / 1000;
    PBT_CHECK(c, "quantization", pbt::close(q1, std::max(model, 0.5), 1e-9, 0), z1, " ", q1, " ", model);

    // screen to camera
    const double u = s.real(0, k.w1), v = s.real(0, k.h1), z = s.real(41, 6000);
    const ScreenCoordinate screen(u, v, z);
    c.note("pixel ", u, " ", v, " depth ", z, " pose ", show(q));
    if (std::abs(u - k.cx1) > 10 and std::abs(v - k.cy1) > 10)
        c.nontrivial();
    c.label(cat(u < k.cx1 ? "left" : "right", v < k.cy1 ? " top" : " bottom"));
    const ScreenCoordinateCovariance sc = screen.get_covariance();
    PBT_CHECK(c, "screen-covariance", psd<3>(sc) and sc.determinant() > 0, show(sc));
    // the measured depth noise follows the sensor model, an unusable depth is a very uncertain one
    PBT_CHECK(c, "screen-covariance", pbt::close(sc(2, 2), std::max(0.5, -0.53 + 0.74e-3 * z + 2.73e-6 * z * z), 1e-9, 0), show(sc));
    const ScreenCoordinateCovariance bad = ScreenCoordinate(u, v, s.draw(2) ? 0.0 : 6001.0 + s.real(0, 1000)).get_covariance();
    PBT_CHECK(c, "screen-covariance-invalid-depth", psd<3>(bad) and bad(2, 2) >= 500, show(bad));
    PBT_CHECK(c, "screen-covariance", psd<2>(screen.get_2D().get_covariance()) and
                                              near(screen.get_2D().get_covariance(), matrix22(sc.block<2, 2>(0, 0)), 1e-12, 0),
              "");

    ScreenCoordinateCovariance inCov;
    inCov << gen_spd<3>(s, 1e-2, 100);
    const auto toCam = [&](const vector3& x) {
        return vector3((x[0] - k.cx1) / k.fx1 * x[2], (x[1] - k.cy1) / k.fy1 * x[2], x[2]);
    };
    const matrix33 J = jacobian<3, 3>(toCam, vector3(u, v, z));
    const CameraCoordinateCovariance cc = utils::get_camera_point_covariance(screen, inCov);
    const matrix33 refCam = J * inCov * J.transpose();
    PBT_CHECK(c, "camera-covariance", near(cc, refCam, 1e-6, 1e-9), "got ", show(cc), " expected ", show(refCam));
    const CameraCoordinateCovariance cc2 = utils::get_camera_point_covariance(screen);
    PBT_CHECK(c, "camera-covariance-default", near(cc2, matrix33(J * sc * J.transpose()), 1e-6, 1e-9) and psd<3>(cc2), "got ", show(cc2),
              " expected ", show(matrix33(J * sc * J.transpose())));

    // camera to screen: the inverse linear map
    const CameraCoordinate cam = screen.to_camera_coordinates();
    const ScreenCoordinateCovariance sBack = utils::get_screen_point_covariance(cam, cc);
    PBT_CHECK(c, "screen-round-trip", near(sBack, inCov, 1e-6, 1e-6), "got ", show(sBack), " expected ", show(inCov));

    // camera to world
    const matrix33 poseCov = s.draw(3) == 0 ? matrix33::Zero().eval() : gen_spd<3>(s, 1e-3, 1e3);
    const WorldCoordinateCovariance wc = utils::get_world_point_covariance(cc, c2w, poseCov);
    const matrix33 refWorld = R * refCam * R.transpose() + poseCov;
    PBT_CHECK(c, "world-covariance", near(wc, refWorld, 1e-6, 1e-9) and psd<3>(wc), "got ", show(wc), " expected ", show(refWorld));
    const WorldCoordinateCovariance wc2 = utils::get_world_point_covariance(screen, c2w, poseCov);
    PBT_CHECK(c, "world-covariance-default", near(wc2, matrix33(R * J * sc * J.transpose() * R.transpose() + poseCov), 1e-6, 1e-9), "");
    // world to camera; the same in all directions pose noise has one meaning only
    const double iso = s.real(0, 100);
    const CameraCoordinateCovariance cBack = utils::get_camera_point_covariance(wc, w2c, matrix33(iso * matrix33::Identity()));
    const matrix33 refBack = R.transpose() * refWorld * R + iso * matrix33::Identity();
    PBT_CHECK(c, "camera-from-world", near(cBack, refBack, 1e-6, 1e-9) and psd<3>(cBack), "got ", show(cBack), " expected ",
              show(refBack));

    // generic propagation
    {
        Eigen::Matrix<double, 2, 3> A;
        for (int i = 0; i < 6; ++i)
            A(i / 3, i % 3) = s.sym(5);
        const matrix33 C = gen_spd<3>(s, 1e-3, 10);
        const double eps = s.draw(2) ? s.real(0, 1) : 0.0;
        const matrix22 P = utils::propagate_covariance<3, 2>(C, A, eps);
        PBT_CHECK(c, "propagation", near(P, matrix22(A * C * A.transpose() + eps * matrix22::Identity()), 1e-9, 1e-12) and psd<2>(P),
                  show(P));
    }
    // validity of a covariance
    {
        const matrix33 C = gen_spd<3>(s, 1e-3, 1e3);
        matrix33 notSym = C, notPos, nan = C;
        notSym(0, 1) += 1 + std::abs(C(0, 1));
        Eigen::SelfAdjointEigenSolver<matrix33> e(C);
        vector3 ev = e.eigenvalues();
        ev[static_cast<long>(s.draw(3))] *= -1;
        notPos = e.eigenvectors() * ev.asDiagonal() * e.eigenvectors().transpose();
        notPos = (0.5 * (notPos + notPos.transpose())).eval();
        nan(static_cast<long>(s.draw(3)), static_cast<long>(s.draw(3))) = s.draw(2) ? std::nan("") : INFINITY;
        PBT_CHECK(c, "validity-accept", utils::is_covariance_valid<3>(C), show(C));
        PBT_CHECK(c, "validity-refuse", not utils::is_covariance_valid<3>(notSym) and not utils::is_covariance_valid<3>(notPos) and
                                                not utils::is_covariance_valid<3>(nan),
                  show(C));
    }

    // planes
    const vector3 n = gen_direction(s);
    double d = s.sym(6000);
    if (std::abs(d) < 10)
        d = 10;
    const PlaneCameraCoordinates plane(vector3(n * s.real(0.5, 2)), d);
    const matrix33 cloud = gen_spd<3>(s, 1e-4, 10);
    const matrix44 pc = utils::compute_plane_covariance(plane, cloud);
    PBT_CHECK(c, "plane-covariance-valid", psd<4>(pc) and pc.diagonal().minCoeff() > 0 and utils::is_covariance_valid<4>(pc), show(pc));
    const auto toPlane = [](const vector3& x) {
        return vector4(vector4(x[0], x[1], x[2], 1.0) / x.norm());
    };
    const Eigen::Matrix<double, 4, 3> JP = jacobian<4, 3>(toPlane, vector3(n * d));
    PBT_CHECK(c, "plane-covariance", near(pc, matrix44(JP * cloud * JP.transpose() + 0.01 * matrix44::Identity()), 1e-5, 1e-8), "got ",
              show(pc));
    const matrix44 planeCov = gen_spd<4>(s, 1e-4, 1);
    const matrix33 reduced = utils::compute_reduced_plane_point_cloud_covariance(plane, planeCov);
    Eigen::Matrix<double, 3, 4> JR;
    JR << d * matrix33::Identity(), n;
    const matrix33 refReduced = JR * planeCov * JR.transpose() + 0.01 * matrix33::Identity();
    PBT_CHECK(c, "reduced-plane-covariance", near(reduced, refReduced, 1e-6, 1e-9) and psd<3>(reduced), show(reduced));
    const PlaneCameraToWorldMatrix pc2w = utils::compute_plane_camera_to_world_matrix(c2w);
    const PlaneWorldCoordinates worldPlane = plane.to_world_coordinates(pc2w);
    if (std::abs(worldPlane.get_d()) > 10)
    {
        c.label("plane in world");
        const matrix44 wp = utils::get_world_plane_covariance(plane, c2w, pc2w, planeCov, poseCov);
        const matrix33 cloudW = R * refReduced * R.transpose() + poseCov;
        const Eigen::Matrix<double, 4, 3> JW =
                jacobian<4, 3>(toPlane, vector3(worldPlane.get_normal() * worldPlane.get_d()));
        PBT_CHECK(c, "world-plane-covariance",
                  near(wp, matrix44(JW * cloudW * JW.transpose() + 0.01 * matrix44::Identity()), 1e-4, 1e-7) and psd<4>(wp), "got ",
                  show(wp));
    }
    // refusals
    matrix33 invalid = cloud;
    invalid(0, 0) = -1;
    PBT_CHECK(c, "refusal", throws([&]() { (void)utils::compute_plane_covariance(plane, invalid); }) and
                                    throws([&]() {
                                        matrix44 m = planeCov;
                                        m(2, 2) = std::nan("");
                                        (void)utils::compute_reduced_plane_point_cloud_covariance(plane, m);
                                    }),
              "an invalid covariance was accepted");
}

PBT_MAIN((pbt::Property {.id = "P05",
                         .rule = "pixels, depths, poses, planes and random symmetric positive definite covariances; non-trivial: the "
                                 "pixel is over 10 px from both axes of the optical center (correlated errors)",
                         .setup = camera_setup,
                         .run = run,
                         .describeSetup = describe_camera}))
