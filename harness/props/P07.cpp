// needs: src/coordinates/*.cpp src/utils/*.cpp src/parameters.cpp src/outputs/logger.cpp src/tracking/point_with_tracking.cpp third_party/concave_fitting.cpp
#include "common.hpp"
#include "tracking/point_with_tracking.hpp"
using namespace h;

static matrix33 invalid_covariance(Source& s, const matrix33& good)
{
    matrix33 m = good;
    const auto i = static_cast<long>(s.draw(3));
    switch (s.draw(4))
    {
        case 0:
            m(i, i) = std::numeric_limits<double>::quiet_NaN();
            break;
        case 1:
            m(i, i) = std::numeric_limits<double>::infinity();
            break;
        case 2:
            m(i, i) = -m(i, i);
            break;
        default:
            m(i, (i + 1) % 3) += m.norm();
    }
    return m;
}

static void run(Source& s, Ctx& c)
{
    const vector3 x0 = gen_vector(s, s.logreal(1, 1e4));
    matrix33 p = gen_spd<3>(s, 1, 1e4);
    const cv::Mat descriptor(1, static_cast<int>(s.integer(1, 64)), CV_8U, cv::Scalar(s.draw(256)));
    // refusals
    if (s.draw(5) == 0)
    {
        WorldCoordinateCovariance bad, good;
        bad << invalid_covariance(s, p);
        good << p;
        vector3 nan = x0;
        nan[static_cast<long>(s.draw(3))] = std::numeric_limits<double>::quiet_NaN();
        PBT_CHECK(c, "constructor-refusal", throws([&]() { tracking::Point(WorldCoordinate(x0), bad, descriptor); }) and
                                                    throws([&]() { tracking::Point(WorldCoordinate(nan), good, descriptor); }) and
                                                    throws([&]() { tracking::Point(WorldCoordinate(x0), good, cv::Mat()); }),
                  "an invalid point was accepted");
    }
    WorldCoordinateCovariance p0;
    p0 << p;
    std::vector<tracking::Point> points = {tracking::Point(WorldCoordinate(x0), p0, descriptor)};
    vector3 x = x0;
    PBT_CHECK(c, "constructor", points[0]._coordinates == x and points[0]._covariance == p and not points[0].is_moving(), "");
    bool moving = false;
    int updates = 0;
    const int steps = static_cast<int>(1 + s.draw(12));
    for (int k = 0; k < steps; ++k)
    {
        if (s.draw(6) == 0)
            points.push_back(points.back()); // copies carry the whole state
        tracking::Point& point = points.back();
        const matrix33 r = gen_spd<3>(s, 1, 1e4);
        // the detection: somewhere around, at a controlled number of standard deviations per axis
        vector3 z;
        bool sure = true, expectMoving = false;
        const double spread = s.pick(std::vector<double> {0.3, 2.0, 0.05, 20.0});
        for (int i = 0; i < 3; ++i)
        {
            const double sd = std::sqrt(r(i, i));
            const double n = s.sym(spread);
            z[i] = x[i] + n * sd;
            sure = sure and std::abs(std::abs(n) - 1.0) > 1e-6;
            expectMoving = expectMoving or std::abs(n) > 1.0;
        }
        if (s.draw(5) == 0)
        {
            const matrix33 bad = invalid_covariance(s, r);
            const double score = point.track(WorldCoordinate(z), bad);
            PBT_CHECK(c, "invalid-detection", score < 0 and point._coordinates == x and near(matrix33(point._covariance), p, 0, 0) and point.is_moving() == moving,
                      "score ", score, " detection covariance ", show(bad));
            c.label("invalid detection");
            continue;
        }
        const double score = point.track(WorldCoordinate(z), r);
        ++updates;
        // reference: fusion of two gaussians in information form
        using L3 = Eigen::Matrix<long double, 3, 3>;
        const L3 pi = L3(p.cast<long double>() + 0.001L * L3::Identity()).fullPivLu().inverse();
        const L3 ri = L3(r.cast<long double>()).fullPivLu().inverse();
        const L3 npl = L3(pi + ri).fullPivLu().inverse();
        const matrix33 np = npl.cast<double>();
        const vector3 nx = x + (npl * ri * (z - x).cast<long double>()).cast<double>();
        c.note("detection ", show(z.transpose()), " variances ", show(r.diagonal().transpose()), " expected ", show(nx.transpose()), " moving ", expectMoving);
        const double tol = 1e-4 * (z - x).norm() + 1e-9 * (1 + x.norm());
        PBT_CHECK(c, "position", near(vector3(point._coordinates), nx, 0, tol), "got ", show(point._coordinates.transpose()), " expected ", show(nx.transpose()));
        PBT_CHECK(c, "covariance", near(matrix33(point._covariance), np, 1e-3, 1e-9), "got ", show(matrix33(point._covariance)), " expected ", show(np));
        PBT_CHECK(c, "score", pbt::close(score, (nx - x).norm(), 1e-6, tol), "got ", score, " expected ", (nx - x).norm());
        if (sure)
            PBT_CHECK(c, "moving", point.is_moving() == expectMoving, "displacement ", show((z - x).transpose()), " standard deviations ",
                      show(r.diagonal().cwiseSqrt().transpose()), " reported ", point.is_moving());
        PBT_CHECK(c, "descriptor", point._descriptor.cols == descriptor.cols and cv::norm(point._descriptor, descriptor, cv::NORM_L1) == 0, "");
        moving = point.is_moving();
        c.label(moving ? "moving" : "static");
        // continue from the real state: errors do not accumulate
        x = point._coordinates;
        p = point._covariance;
    }
    if (updates >= 2)
        c.nontrivial();
}

PBT_MAIN((pbt::Property {.id = "P07",
                         .rule = "map points with a generated position and covariance, histories of detections at 0 to 20 standard "
                                 "deviations, invalid detections and copies; non-trivial: at least two accepted detections",
                         .run = run}))
