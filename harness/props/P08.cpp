// needs: src/coordinates/*.cpp src/utils/*.cpp src/parameters.cpp src/outputs/logger.cpp src/tracking/inverse_depth_with_tracking.cpp third_party/concave_fitting.cpp
#include "common.hpp"
#include "tracking/inverse_depth_with_tracking.hpp"
#include "utils/covariances.hpp"
using namespace h;
using L3 = Eigen::Matrix<long double, 3, 3>;

static matrix33 invalid_covariance(Source& s, const matrix33& good)
{
    matrix33 m = good;
    const auto i = static_cast<long>(s.draw(3));
    switch (s.draw(4))
    {
        case 0:
            m(i, i) = std::numeric_limits<double>::quiet_NaN();
            break;
        case 1:
            m(i, i) = std::numeric_limits<double>::infinity();
            break;
        case 2:
            m(i, i) = -m(i, i);
            break;
        default:
            m(i, (i + 1) % 3) += m.norm();
    }
    return m;
}

struct State
{
    vector3 origin;
    double id, theta, phi;
    matrix66 cov;

    explicit State(const tracking::PointInverseDepth& p) :
        origin(p._coordinates.get_first_observation()),
        id(p._coordinates.get_inverse_depth()),
        theta(p._coordinates.get_theta()),
        phi(p._coordinates.get_phi()),
        cov(p._covariance)
    {
    }
    vector3 bearing() const { return vector3(sin(theta) * cos(phi), sin(theta) * sin(phi), cos(theta)); }
    vector3 cartesian() const { return origin + bearing() / id; }
    Eigen::Matrix<double, 3, 6> jacobian() const
    {
        Eigen::Matrix<double, 3, 6> j;
        j.leftCols<3>().setIdentity();
        j.col(3) = -bearing() / (id * id);
        j.col(4) = vector3(cos(theta) * cos(phi), cos(theta) * sin(phi), -sin(theta)) / id;
        j.col(5) = vector3(-sin(theta) * sin(phi), sin(theta) * cos(phi), 0) / id;
        return j;
    }
    matrix33 cartesian_covariance() const { return jacobian() * cov * jacobian().transpose(); }
    bool operator==(const State& o) const
    {
        return origin == o.origin and id == o.id and theta == o.theta and phi == o.phi and cov == o.cov;
    }
};

// first derivatives of (1/|v|, theta, phi)
static matrix33 inverse_jacobian(const vector3& v)
{
    const double n = v.norm(), hz = std::hypot(v.x(), v.y());
    matrix33 j;
    j.row(0) = -v.transpose() / (n * n * n);
    j.row(1) << v.x() * v.z() / (hz * n * n), v.y() * v.z() / (hz * n * n), -hz / (n * n);
    j.row(2) << -v.y() / (hz * hz), v.x() / (hz * hz), 0;
    return j;
}

static matrix33 tl(const matrix66& m) { return m.topLeftCorner<3, 3>(); }
static matrix33 tr(const matrix66& m) { return m.topRightCorner<3, 3>(); }
static matrix33 bl(const matrix66& m) { return m.bottomLeftCorner<3, 3>(); }

static void run(Source& s, Ctx& c)
{
    const Camera& k = camera();
    quaternion q = gen_quaternion(s);
    vector3 t = gen_vector(s, 2000);
    vector2 pixel(s.real(1, k.w1 - 1), s.real(1, k.h1 - 1));
    CameraToWorldMatrix c2w = utils::compute_camera_to_world_transform(q, t);
    matrix33 pose = gen_spd<3>(s, 1e-2, 100);
    const cv::Mat descriptor(1, 32, CV_8U, cv::Scalar(s.draw(256)));

    PBT_CHECK(c, "constructor-refusal",
              throws([&]() { tracking::PointInverseDepth(ScreenCoordinate2D(pixel), c2w, invalid_covariance(s, pose), descriptor); }), "");

    tracking::PointInverseDepth first(ScreenCoordinate2D(pixel), c2w, pose, descriptor);
    State st(first);
    const vector3 ray = (reference_axes() * q.toRotationMatrix() * vector3((pixel.x() - k.cx1) / k.fx1, (pixel.y() - k.cy1) / k.fy1, 1.0)).normalized();
    matrix66 cov0 = matrix66::Zero();
    cov0.topLeftCorner<3, 3>() = pose;
    cov0(3, 3) = std::pow(1e-3 / 4, 2);
    cov0(4, 4) = cov0(5, 5) = std::pow(0.5 * M_PI / 180, 2);
    PBT_CHECK(c, "constructor", near(st.origin, vector3(reference_axes() * t), 1e-9, 1e-9) and near(st.bearing(), ray, 0, 1e-7) and
                                        pbt::close(st.id, 0.5e-3, 1e-9, 0) and not first.is_moving(),
              "");
    PBT_CHECK(c, "constructor-covariance", near(tl(st.cov), pose, 1e-12, 0) and pbt::close(st.cov(3, 3), cov0(3, 3), 1e-6, 0) and
                                                   pbt::close(st.cov(4, 4), cov0(4, 4), 1e-6, 0) and pbt::close(st.cov(5, 5), cov0(5, 5), 1e-6, 0) and
                                                   tr(st.cov).isZero() and st.cov.isApprox(st.cov.transpose()),
              show(st.cov));
    PBT_CHECK(c, "accessors", near(first.get_covariance_of_observed_pose(), pose, 1e-12, 0) and first._covariance.get_inverse_depth_variance() == st.cov(3, 3) and
                                      first._covariance.get_theta_variance() == st.cov(4, 4) and first._covariance.get_phi_variance() == st.cov(5, 5) and
                                      near(first._covariance.get_first_pose_covariance(), pose, 1e-12, 0),
              "");

    std::vector<tracking::PointInverseDepth> points;
    points.reserve(32);
    points.push_back(first);
    // the real point is on the first ray
    const vector3 truth = st.origin + st.bearing() * s.real(500, 5000);
    bool moving = false;
    int updates = 0;
    int descriptorValue = static_cast<int>(descriptor.at<uchar>(0, 0));
    const int steps = static_cast<int>(1 + s.draw(8));
    for (int step = 0; step < steps; ++step)
    {
        if (s.draw(5) == 0)
        {
            const tracking::PointInverseDepth copy(points.back());
            PBT_CHECK(c, "copy", State(copy) == st and copy.is_moving() == moving, "a copied point differs from the original, moving ", moving, " copy ",
                      copy.is_moving());
            points.push_back(copy);
        }
        tracking::PointInverseDepth& point = points.back();
        // a new point of view, turned to the point
        const vector3 target = truth + gen_vector(s, s.pick(std::vector<double> {0.0, 5.0, 500.0}));
        t = reference_axes().transpose() * (st.origin + gen_vector(s, 800));
        const vector3 camDir = (reference_axes().transpose() * target - t).normalized();
        q = (quaternion::FromTwoVectors(vector3::UnitZ(), camDir) * quaternion(Eigen::AngleAxisd(s.real(0, 2 * M_PI), vector3::UnitZ()))).normalized();
        q = (q * gen_small_quaternion(s, 0.2)).normalized();
        c2w = utils::compute_camera_to_world_transform(q, t);
        const WorldToCameraMatrix w2c = utils::compute_world_to_camera_transform(q, t);
        pose = gen_spd<3>(s, 1e-2, 100);
        const vector3 inCam = q.conjugate() * (reference_axes().transpose() * target - t);
        if (inCam.z() < 100 or inCam.z() > 5900)
            continue;
        const vector2 px(inCam.x() / inCam.z() * k.fx1 + k.cx1, inCam.y() / inCam.z() * k.fy1 + k.cy1);
        if (px.minCoeff() < 0 or px.x() > k.w1 or px.y() > k.h1)
            continue;
        const cv::Mat newDescriptor = s.draw(3) == 0 ? cv::Mat() : cv::Mat(1, 32, CV_8U, cv::Scalar(s.draw(256)));

        const uint64_t op = s.draw(8);
        if (op == 0)
        {
            // refused observations leave the point as it was
            const bool bad = s.draw(2);
            bool accepted;
            if (bad)
                accepted = point.track(ScreenCoordinate2D(px), c2w, invalid_covariance(s, pose), newDescriptor);
            else
                accepted = point.track(ScreenCoordinate(px.x(), px.y(), s.pick(std::vector<double> {0.0, 10.0, -5.0, 39.0, 6100.0})), c2w, pose, newDescriptor);
            PBT_CHECK(c, "refusal", not accepted, bad ? "an invalid observer covariance was accepted" : "an invalid depth was accepted");
            PBT_CHECK(c, "refusal-unchanged", State(point) == st and point.is_moving() == moving and point._descriptor.at<uchar>(0, 0) == descriptorValue, "");
            c.label("refused observation");
            continue;
        }
        const bool withDepth = op >= 4;
        vector3 z;
        matrix33 r;
        if (withDepth)
        {
            const ScreenCoordinate obs(px.x(), px.y(), inCam.z() + s.sym(10));
            z = obs.to_world_coordinates(c2w);
            r = utils::get_world_point_covariance(obs, c2w, pose);
        }
        else
        {
            const State o(tracking::PointInverseDepth(ScreenCoordinate2D(px), c2w, pose));
            z = o.cartesian();
            r = o.cartesian_covariance();
        }
        bool accepted;
        if (withDepth)
            accepted = point.track(ScreenCoordinate(px.x(), px.y(), (q.conjugate() * (reference_axes().transpose() * z - t)).z()), c2w, pose, newDescriptor);
        else
            accepted = point.track(ScreenCoordinate2D(px), c2w, pose, newDescriptor);

        // reference: fusion in cartesian space, then back to the first observation's inverse depth
        const vector3 x = st.cartesian();
        const L3 pl = L3(st.cartesian_covariance().cast<long double>()) + L3(0.0001L * L3::Identity());
        const L3 rl = r.cast<long double>();
        const L3 gain = pl * L3(pl + rl).fullPivLu().inverse();
        const vector3 nx = x + (gain * (z - x).cast<long double>()).cast<double>();
        const L3 keep = L3::Identity() - gain;
        const matrix33 np = L3(keep * pl * keep.transpose() + gain * rl * gain.transpose()).cast<double>();
        const vector3 v = nx - st.origin;
        const double hz = std::hypot(v.x(), v.y()) / v.norm();
        const matrix33 oldCart = st.cartesian_covariance();
        const Eigen::SelfAdjointEigenSolver<matrix33> eo(oldCart), er(r), en(np);
        const double cond = std::max(eo.eigenvalues().maxCoeff(), er.eigenvalues().maxCoeff()) / en.eigenvalues().minCoeff();
        const bool wellConditioned = hz > 0.05 and v.norm() > 100 and cond < 1e6;
        if (not accepted)
        {
            PBT_CHECK(c, "failure-unchanged", State(point) == st and point.is_moving() == moving, "a failed update changed the point");
            PBT_CHECK(c, "accepted", not wellConditioned, "a valid observation was refused, condition ", cond, " distance ", v.norm());
            c.label("failed update");
            continue;
        }
        const State got(point);
        ++updates;
        c.label(withDepth ? "observation with depth" : "observation without depth");
        PBT_CHECK(c, "first-observation", near(got.origin, st.origin, 1e-12, 0) and near(tl(got.cov), tl(st.cov), 1e-12, 0),
                  "the first observation was moved");
        PBT_CHECK(c, "valid", utils::is_covariance_valid(got.cov) and got.id > 0 and got.theta >= 0 and got.theta <= M_PI and std::abs(got.phi) <= M_PI, "");
        if (wellConditioned)
        {
            const double tol = 1e-3 * (z - x).norm() + 1e-5 * x.norm() + 1e-3;
            PBT_CHECK(c, "position", near(got.cartesian(), nx, 0, tol), "got ", show(got.cartesian().transpose()), " expected ", show(nx.transpose()));
            // scaled comparison: the components have very different magnitudes
            const matrix33 ji = inverse_jacobian(got.cartesian() - st.origin);
            const matrix33 expected = ji * np * ji.transpose();
            const matrix33 block = got.cov.bottomRightCorner<3, 3>();
            for (int i = 0; i < 3; ++i)
                for (int j = 0; j < 3; ++j)
                    PBT_CHECK(c, "covariance", std::abs(block(i, j) - expected(i, j)) <= 1e-2 * std::sqrt(expected(i, i) * expected(j, j)), "got ",
                              show(block), " expected ", show(expected));
            PBT_CHECK(c, "cross-covariance", tr(got.cov).isZero() and bl(got.cov).isZero(), "");
        }
        bool sure = true, expectMoving = false;
        for (int i = 0; i < 3; ++i)
        {
            const double ratio = std::abs(x[i] - z[i]) / std::sqrt(r(i, i));
            sure = sure and std::abs(ratio - 1.0) > 1e-3;
            expectMoving = expectMoving or ratio > 1.0;
        }
        if (sure)
            PBT_CHECK(c, "moving", point.is_moving() == expectMoving, "displacement ", show((z - x).transpose()), " standard deviations ",
                      show(r.diagonal().cwiseSqrt().transpose()));
        if (not newDescriptor.empty())
            descriptorValue = newDescriptor.at<uchar>(0, 0);
        PBT_CHECK(c, "descriptor", point._descriptor.cols == 32 and point._descriptor.at<uchar>(0, 0) == descriptorValue, "");
        moving = point.is_moving();
        st = got;
        c.note("step ", step, " id ", st.id, " theta ", st.theta, " phi ", st.phi);

        // derived quantities
        const WorldCoordinateCovariance world = tracking::PointInverseDepth::compute_cartesian_covariance(point._coordinates, point._covariance);
        PBT_CHECK(c, "cartesian-covariance", near(matrix33(world), st.cartesian_covariance(), 1e-6, 1e-9), "");
        const matrix33 cam = point.get_camera_coordinate_variance(w2c);
        PBT_CHECK(c, "camera-covariance",
                  near(cam, matrix33(utils::get_camera_point_covariance(world, w2c, matrix33(tl(st.cov)))), 1e-9, 1e-9), "");
        const vector3 hc = st.cartesian() - reference_axes() * t;
        const double score = 4 * std::sqrt(st.cov(3, 3)) / (st.id * st.id) / hc.norm() * std::abs(st.bearing().dot(hc) / hc.norm());
        PBT_CHECK(c, "linearity", pbt::close(point.compute_linearity_score(c2w), score, 1e-6, 1e-9), "got ", point.compute_linearity_score(c2w), " expected ", score);
        utils::Segment<2> a, b;
        const bool ra = point.to_screen_coordinates(w2c, a), rb = point._coordinates.to_screen_coordinates(w2c, st.cov(3, 3), b);
        PBT_CHECK(c, "segment", ra == rb and (not ra or (near(a.get_start_point(), b.get_start_point(), 1e-9, 1e-9) and near(a.get_end_point(), b.get_end_point(), 1e-9, 1e-9))), "");
    }
    if (updates >= 1)
        c.nontrivial();
}

PBT_MAIN((pbt::Property {.id = "P08",
                         .rule = "points first seen at any pixel of any pose, then histories of observations with or without depth from "
                                 "other poses, refused observations and copies; non-trivial: at least one accepted observation",
                         .setup = camera_setup,
                         .run = run,
                         .describeSetup = describe_camera}))
