// needs: all
#include "common.hpp"
#include "map_management/map_features/map_point.hpp"
#include "map_management/map_features/map_point2d.hpp"
#include "map_management/map_features/map_primitive.hpp"
#include "pose_optimization/levenberg_marquardt_functors.hpp"
#include "utils/line.hpp"
using namespace h;
using namespace rgbd_slam::pose_optimization;
using rgbd_slam::matches_containers::feat_ptr;
using rgbd_slam::matches_containers::match_container;

static double rotation_angle(const quaternion& a, const quaternion& b)
{
    const matrix33 m = a.toRotationMatrix().transpose() * b.toRotationMatrix();
    // small angles with a good precision
    const vector3 v(m(2, 1) - m(1, 2), m(0, 2) - m(2, 0), m(1, 0) - m(0, 1));
    return std::atan2(v.norm() / 2, (m.trace() - 1) / 2);
}

static void check_coefficients(Source& s, Ctx& c)
{
    c.label("coefficients");
    quaternion q = gen_quaternion(s);
    if (s.draw(4) == 0)
    {
        // around the half turns
        const vector3 axis = s.boolean() ? vector3(vector3::UnitZ()) : gen_direction(s);
        q = quaternion(Eigen::AngleAxisd((s.boolean() ? -1 : 1) * (M_PI + s.sym(s.boolean() ? 0.1 : 1e-4)), axis));
    }
    if (s.boolean())
        q.coeffs() = -q.coeffs();
    const vector3 t = gen_vector(s, 5000);
    c.note("pose ", show(t.transpose()), " ", show(q));
    const utils::PoseBase pose(t, q);
    const vector6 coefficients = get_optimization_coefficient_from_pose(pose);
    PBT_CHECK(c, "coefficients", coefficients.allFinite(), show(coefficients.transpose()));
    Eigen::Matrix<double, 7, 6> jac;
    const utils::PoseBase back = get_pose_from_optimization_coefficients(coefficients);
    const utils::PoseBase back2 = get_pose_from_optimization_coefficients(coefficients, jac);
    for (const utils::PoseBase* p: {&back, &back2})
    {
        PBT_CHECK(c, "round-trip", near(p->get_position(), t, 1e-12, 1e-12), "position ", show(p->get_position().transpose()), " instead of ", show(t.transpose()));
        const double angle = rotation_angle(q, p->get_orientation_quaternion());
        PBT_CHECK(c, "round-trip", angle < 1e-6, "the rotation changes by ", angle, " rad: ", show(q), " gives ", show(p->get_orientation_quaternion()));
    }
    if (rotation_angle(q, quaternion::Identity()) > 0.1)
        c.nontrivial();
    // any coefficients are a pose, and the jacobian is the derivative of (x, y, z, qw, qx, qy, qz)
    vector6 x = coefficients;
    if (s.boolean())
        x.tail<3>() = gen_vector(s, 3);
    const auto raw = [](const vector6& v) {
        const utils::PoseBase p = get_pose_from_optimization_coefficients(v);
        Eigen::Matrix<double, 7, 1> r;
        const quaternion o = p.get_orientation_quaternion();
        r << p.get_position(), o.w(), o.x(), o.y(), o.z();
        return r;
    };
    const utils::PoseBase p = get_pose_from_optimization_coefficients(x, jac);
    PBT_CHECK(c, "unit", pbt::close(p.get_orientation_quaternion().norm(), 1, 0, 1e-9), p.get_orientation_quaternion().norm());
    for (int i = 0; i < 6; ++i)
    {
        const double step = i < 3 ? 1e-2 : 1e-5;
        vector6 a = x, b = x;
        a[i] -= step;
        b[i] += step;
        Eigen::Matrix<double, 7, 1> ra = raw(a), rb = raw(b);
        const Eigen::Matrix<double, 7, 1> r0 = raw(x);
        // the sign of a quaternion is free
        if (ra.tail<4>().dot(r0.tail<4>()) < 0)
            ra.tail<4>() *= -1;
        if (rb.tail<4>().dot(r0.tail<4>()) < 0)
            rb.tail<4>() *= -1;
        const Eigen::Matrix<double, 7, 1> d = (rb - ra) / (2 * step);
        const bool same = near(jac.col(i), d, 1e-5, 1e-6);
        Eigen::Matrix<double, 7, 1> flipped = jac.col(i);
        flipped.tail<4>() *= -1;
        PBT_CHECK(c, "jacobian", same or near(flipped, d, 1e-5, 1e-6), "column ", i, " is ", show(jac.col(i).transpose()), " the derivative is ", show(d.transpose()), " at ",
                  show(x.transpose()));
    }
}

struct Reference
{
    feat_ptr feature;
    vectorxd distance;
    double parts = 0;
};

static vector3 world_at(Source& s, const CameraToWorldMatrix& c2w, double zMin, double zMax)
{
    const Camera& k = camera();
    const double z = s.real(zMin, zMax);
    const double x = (s.real(0, k.w1 - 1) - k.cx1) / k.fx1 * z, y = (s.real(0, k.h1 - 1) - k.cy1) / k.fy1 * z;
    return (c2w * vector4(x, y, z, 1)).head<3>();
}
static vector2 project(const WorldToCameraMatrix& w2c, const vector3& p)
{
    const Camera& k = camera();
    const vector4 r = w2c * vector4(p.x(), p.y(), p.z(), 1);
    return vector2(k.fx1 * r.x() / r.z() + k.cx1, k.fy1 * r.y() / r.z() + k.cy1);
}
// offset of an observation in pixels: none, small, around the inlier limit, large
static double gen_offset(Source& s)
{
    switch (s.draw(4))
    {
        case 0:
            return 0;
        case 1:
            return s.sym(3.5);
        case 2:
            return s.sym(1);
        default:
            return s.sym(200);
    }
}

static void check_features(Source& s, Ctx& c)
{
    const quaternion q = gen_quaternion(s);
    const vector3 t = gen_vector(s, 3000);
    const utils::PoseBase pose(t, q);
    const WorldToCameraMatrix w2c = utils::compute_world_to_camera_transform(q, t);
    const CameraToWorldMatrix c2w = utils::compute_camera_to_world_transform(q, t);
    const int n = static_cast<int>(1 + s.draw(6));
    std::vector<Reference> references;
    match_container all;
    int inliers = 0, outliers = 0;
    double parts = 0;
    for (int i = 0; i < n; ++i)
    {
        Reference r;
        const size_t idInMap = 1 + s.draw(1000), idDetected = s.draw(1000);
        int inlier = -1; // 0 no, 1 yes, -1: too close to the limit
        double alpha = 1;
        FeatureType type;
        switch (s.draw(3))
        {
            case 0:
            {
                type = FeatureType::Point;
                const vector3 p = world_at(s, c2w, 100, 6000);
                const vector2 offset(gen_offset(s), gen_offset(s));
                const vector2 seen = project(w2c, p) + offset;
                const vector3 dev(s.real(0, 20), s.real(0, 20), s.real(0, 20));
                r.feature = std::make_shared<map_management::PointOptimizationFeature>(ScreenCoordinate2D(seen.x(), seen.y()), WorldCoordinate(p.x(), p.y(), p.z()), dev, idInMap, idDetected);
                r.distance = seen - project(w2c, p);
                const double l1 = r.distance.lpNorm<1>();
                if (std::abs(l1 - 3) > 1e-4)
                    inlier = l1 < 3;
                r.parts = 2;
                PBT_CHECK(c, "score", pbt::close(r.feature->get_score(), 1.0 / parameters::optimization::minimumPointForOptimization, 1e-9, 0), r.feature->get_score());
                break;
            }
            case 1:
            {
                type = FeatureType::Point2d;
                // seen first from another place
                const vector3 p = world_at(s, c2w, 500, 6000);
                const vector3 origin = t + gen_vector(s, s.boolean() ? 200 : 1500);
                const vector3 d = p - origin;
                if (d.norm() < 100 or d.head<2>().norm() < 1e-2)
                    continue;
                const double inverseDepth = 1 / d.norm(), theta = std::acos(d.z() / d.norm()), phi = std::atan2(d.y(), d.x());
                const double dev = s.boolean() ? inverseDepth * s.real(0, 0.3) : (s.boolean() ? s.logreal(1e-7, 1e-4) : s.real(0, 1e-3));
                vector6 deviations;
                deviations << 1, 1, 1, dev, s.real(0, 0.01), s.real(0, 0.01);
                const vector2 offset(gen_offset(s), gen_offset(s));
                const vector2 seen = project(w2c, p) + offset;
                const InverseDepthWorldPoint point(WorldCoordinate(origin.x(), origin.y(), origin.z()), inverseDepth, theta, phi);
                r.feature = std::make_shared<map_management::Point2dOptimizationFeature>(ScreenCoordinate2D(seen.x(), seen.y()), point, deviations, idInMap, idDetected);
                // the segment seen on the screen, between the closest and furthest estimations at three deviations
                const WorldCoordinate a = point.get_furthest_estimation(dev), b = point.get_closest_estimation(dev);
                const double za = (w2c * a.homogeneous()).z(), zb = (w2c * b.homogeneous()).z();
                if (za < 1 or zb < 1 or za > 1e6 or zb > 1e6)
                    continue;
                const vector2 sa = project(w2c, a), sb = project(w2c, b);
                if ((sa - sb).norm() < 1e-3)
                    continue;
                c.label("segment");
                r.distance = vector2(utils::Segment<2>(sa, sb).distance(seen));
                const vector2 absolute = r.distance.cwiseAbs();
                if (std::abs(absolute.x() - 3) > 1e-3 and std::abs(absolute.y() - 3) > 1e-3)
                    inlier = absolute.maxCoeff() < 3;
                r.parts = 2;
                alpha = 0.3;
                PBT_CHECK(c, "score", pbt::close(r.feature->get_score(), 1.0 / parameters::optimization::minimumPoint2dForOptimization, 1e-9, 0), r.feature->get_score());
                break;
            }
            default:
            {
                type = FeatureType::Plane;
                const vector3 normal = gen_direction(s);
                const double d = -s.real(50, 6000);
                // the same plane in the camera space, then moved
                const matrix33 rw = w2c.block<3, 3>(0, 0);
                const vector3 tw = w2c.block<3, 1>(0, 3);
                const vector3 trueNormal = rw * normal;
                const double trueD = d - trueNormal.dot(tw);
                const vector3 seenNormal = (s.boolean() ? vector3(trueNormal) : vector3(trueNormal + gen_vector(s, 0.4))).normalized();
                const double seenD = trueD + (s.boolean() ? 0 : s.sym(s.boolean() ? 70 : 1000));
                r.feature = std::make_shared<map_management::PlaneOptimizationFeature>(PlaneCameraCoordinates(seenNormal, seenD), PlaneWorldCoordinates(normal, d),
                                                                                       vector4(0.1, 0.1, 0.1, 1), idInMap, idDetected);
                r.distance = seenD * seenNormal - trueD * trueNormal;
                const vector3 dn = (seenNormal - trueNormal).cwiseAbs();
                const double dd = std::abs(seenD - trueD);
                if ((dn.array() - 0.2).abs().minCoeff() > 1e-3 and std::abs(dd - 50) > 1e-2)
                    inlier = dn.maxCoeff() < 0.2 and dd < 50;
                r.parts = 3;
                PBT_CHECK(c, "score", pbt::close(r.feature->get_score(), 1.0 / parameters::optimization::minimumPlanesForOptimization, 1e-9, 0), r.feature->get_score());
                break;
            }
        }
        c.label(to_string(type));
        PBT_CHECK(c, "type", r.feature->get_feature_type() == type and r.feature->is_valid(), to_string(r.feature->get_feature_type()));
        PBT_CHECK(c, "ids", r.feature->_idInMap == idInMap and r.feature->_detectedFeatureId == idDetected, r.feature->_idInMap);
        const vectorxd got = r.feature->get_distance(w2c);
        PBT_CHECK(c, "parts", got.size() == static_cast<long>(r.parts) and r.feature->get_feature_part_count() == static_cast<size_t>(r.parts), got.size());
        PBT_CHECK(c, "distance", near(got, r.distance, 1e-6, 1e-4), to_string(type), " distance ", show(got.transpose()), " instead of ", show(r.distance.transpose()));
        if (inlier >= 0)
        {
            (inlier ? inliers : outliers)++;
            PBT_CHECK(c, "inlier", r.feature->is_inlier(w2c) == (inlier == 1), to_string(type), " at distance ", show(r.distance.transpose()), " inlier: ", r.feature->is_inlier(w2c));
        }
        PBT_CHECK(c, "alpha", r.feature->get_alpha_reduction() > 0 and r.feature->get_alpha_reduction() <= 1, r.feature->get_alpha_reduction());
        alpha = r.feature->get_alpha_reduction();
        // a variation is another observation of the same pair, which stays valid
        const feat_ptr variation = r.feature->compute_random_variation();
        PBT_CHECK(c, "variation", variation != nullptr and variation->is_valid() and variation->_idInMap == idInMap and variation->_detectedFeatureId == idDetected and
                                          variation->get_feature_type() == type,
                  "variation of ", to_string(type));
        r.distance *= alpha / r.parts;
        parts += r.parts;
        references.push_back(r);
        all.push_back(r.feature);
    }
    if (all.empty())
        return;
    if (all.size() > 1 and inliers > 0 and outliers > 0)
        c.nontrivial();
    // the function to optimize is the weighted distance of all the features, in order
    const Global_Pose_Estimator estimator(static_cast<size_t>(parts), all);
    vectorxd scores = vectorxd::Constant(static_cast<long>(parts), 12345.0);
    (void)estimator(get_optimization_coefficient_from_pose(pose), scores);
    long at = 0;
    for (const Reference& r: references)
    {
        const vectorxd part = scores.segment(at, static_cast<long>(r.parts));
        PBT_CHECK(c, "objective", near(part, r.distance, 1e-5, 1e-3), "score of a ", to_string(r.feature->get_feature_type()), " ", show(part.transpose()), " instead of ",
                  show(r.distance.transpose()));
        at += static_cast<long>(r.parts);
    }
    PBT_CHECK(c, "size-mismatch", throws([&] { Global_Pose_Estimator e(static_cast<size_t>(parts) + 1, all); }), "a wrong size is accepted");
    PBT_CHECK(c, "empty", throws([&] { Global_Pose_Estimator e(0, match_container()); }), "an empty set is accepted");
}

// the variations of a feature follow its standard deviation
static void check_variations(Source& s, Ctx& c)
{
    c.label("variation statistics");
    utils::Random::get_random_engine().seed(static_cast<unsigned>(s.draw(1000000)));
    const vector3 p(2000, 100, 50);
    const WorldToCameraMatrix w2c = utils::compute_world_to_camera_transform(quaternion::Identity(), vector3::Zero());
    const vector2 seen = project(w2c, p);
    const vector3 dev(0, s.logreal(0.1, 5), s.logreal(0.1, 5));
    const map_management::PointOptimizationFeature f(ScreenCoordinate2D(seen.x(), seen.y()), WorldCoordinate(p.x(), p.y(), p.z()), dev, 1, 2);
    const int n = 400;
    vector2 mean = vector2::Zero(), square = vector2::Zero();
    for (int i = 0; i < n; ++i)
    {
        const vector2 d = f.compute_random_variation()->get_distance(w2c);
        mean += d / n;
        square += d.cwiseAbs2() / n;
    }
    const Camera& k = camera();
    // y left and z up in the world are -x and -y on the screen
    const vector2 expected(dev.y() * k.fx1 / p.x(), dev.z() * k.fy1 / p.x());
    c.nontrivial();
    for (int i = 0; i < 2; ++i)
    {
        PBT_CHECK(c, "variation-mean", std::abs(mean[i]) < 0.35 * expected[i], "mean of the variations ", mean[i], " deviation ", expected[i]);
        const double sd = std::sqrt(square[i]);
        PBT_CHECK(c, "variation-deviation", sd > 0.75 * expected[i] and sd < 1.3 * expected[i], "deviation of the variations ", sd, " instead of ", expected[i]);
    }
}

// planes: the normal and the distance vary on their own. Inverse depth points: the two angles
static void check_other_variations(Source& s, Ctx& c)
{
    utils::Random::get_random_engine().seed(static_cast<unsigned>(s.draw(1000000)));
    const WorldToCameraMatrix w2c = utils::compute_world_to_camera_transform(quaternion::Identity(), vector3::Zero());
    const int n = 400;
    c.nontrivial();
    if (s.boolean())
    {
        c.label("plane variation statistics");
        const vector3 normal = gen_direction(s);
        const double d = -s.real(500, 3000), devD = s.logreal(1, 50);
        const vector3 dev = vector3(s.logreal(1e-4, 1e-2), s.logreal(1e-4, 1e-2), s.logreal(1e-4, 1e-2));
        const matrix33 rw = w2c.block<3, 3>(0, 0);
        const vector3 seenNormal = rw * normal;
        const map_management::PlaneOptimizationFeature f(PlaneCameraCoordinates(seenNormal, d), PlaneWorldCoordinates(normal, d), vector4(dev.x(), dev.y(), dev.z(), devD), 1, 2);
        // d n (observed) - d n (map): along the normal is the distance, across is the normal
        double square = 0, mean = 0;
        matrix33 across = matrix33::Zero();
        for (int i = 0; i < n; ++i)
        {
            const vector3 e = f.compute_random_variation()->get_distance(w2c);
            const double along = seenNormal.dot(e);
            mean += along / n;
            square += along * along / n;
            const vector3 a = rw.transpose() * (e - along * seenNormal) / d;
            across += a * a.transpose() / n;
        }
        // the variations of the normal change the distance along the normal by a second order
        const double second = std::abs(d) * dev.squaredNorm();
        PBT_CHECK(c, "variation-mean", std::abs(mean) < 0.35 * devD + 2 * second, "mean of the variations of the distance ", mean, " deviation ", devD);
        PBT_CHECK(c, "variation-deviation", std::sqrt(square) > 0.75 * devD and std::sqrt(square) < 1.3 * devD + 3 * second, "deviation of the distance ", std::sqrt(square),
                  " instead of ", devD);
        const matrix33 projection = matrix33::Identity() - normal * normal.transpose();
        const matrix33 expected = projection * dev.cwiseAbs2().asDiagonal() * projection;
        // along the directions of the plane
        const vector3 u = normal.unitOrthogonal(), v = normal.cross(u);
        for (const vector3& direction: {u, v})
        {
            const double sd = std::sqrt(direction.dot(across * direction)), wanted = std::sqrt(direction.dot(expected * direction));
            PBT_CHECK(c, "variation-deviation", sd > 0.7 * wanted and sd < 1.4 * wanted, "deviation of the normal ", sd, " instead of ", wanted);
        }
    }
    else
    {
        c.label("2D point variation statistics");
        // in front, first seen from the side (the line on the screen is horizontal, theta moves it vertically) or from above (phi)
        const bool isTheta = s.boolean();
        const vector3 origin(0, isTheta ? 300 : 0, isTheta ? 0 : 300), p(1500 + s.sym(300), s.sym(100), s.sym(100));
        const vector3 d = p - origin;
        const double range = d.norm(), theta = std::acos(d.z() / range), phi = std::atan2(d.y(), d.x());
        const double devTheta = s.logreal(1e-4, 5e-3), devPhi = s.logreal(1e-4, 5e-3);
        vector6 deviations;
        deviations << 0, 0, 0, 0.1 / range, isTheta ? devTheta : 0, isTheta ? 0 : devPhi;
        const vector2 seen = project(w2c, p);
        const Camera& k = camera();
        const map_management::Point2dOptimizationFeature f(ScreenCoordinate2D(seen.x(), seen.y()),
                                                           InverseDepthWorldPoint(WorldCoordinate(origin.x(), origin.y(), origin.z()), 1 / range, theta, phi), deviations, 1, 2);
        double square = 0;
        for (int i = 0; i < n; ++i)
            square += f.compute_random_variation()->get_distance(w2c).squaredNorm() / n;
        const double sd = std::sqrt(square), wanted = isTheta ? devTheta * range * k.fy1 / p.x() : devPhi * d.head<2>().norm() * k.fx1 / p.x();
        PBT_CHECK(c, "variation-deviation", sd > 0.6 * wanted and sd < 1.5 * wanted, "deviation of the variations of ", isTheta ? "theta " : "phi ", sd, " pixels instead of ", wanted);
    }
}

// a feature with a value that is not a number, or a negative deviation, is not valid
static void check_invalid(Source& s, Ctx& c)
{
    c.label("invalid");
    c.nontrivial();
    const double nan = std::numeric_limits<double>::quiet_NaN();
    const bool isNegative = s.boolean();
    const double wrong = isNegative ? -s.logreal(1e-6, 10) : nan;
    // what is wrong: nothing, the observation, the map feature, the deviation
    const uint64_t where = isNegative ? 3 * s.draw(2) : s.draw(4);
    feat_ptr feature;
    switch (s.draw(3))
    {
        case 0:
        {
            ScreenCoordinate2D seen(s.real(0, 600), s.real(0, 400));
            WorldCoordinate p(s.sym(1000), s.sym(1000), s.sym(1000));
            vector3 dev(s.real(0, 5), s.real(0, 5), s.real(0, 5));
            if (where == 1)
                seen(s.draw(2)) = wrong;
            else if (where == 2)
                p(s.draw(3)) = wrong;
            else if (where == 3)
                dev(s.draw(3)) = wrong;
            feature = std::make_shared<map_management::PointOptimizationFeature>(seen, p, dev, 1, 2);
            break;
        }
        case 1:
        {
            ScreenCoordinate2D seen(s.real(0, 600), s.real(0, 400));
            vector6 dev;
            for (int i = 0; i < 6; ++i)
                dev[i] = s.real(0, 0.1);
            if (where == 1 or where == 2)
                seen(s.draw(2)) = wrong;
            else if (where == 3)
                dev(s.draw(6)) = wrong;
            feature = std::make_shared<map_management::Point2dOptimizationFeature>(
                    seen, InverseDepthWorldPoint(WorldCoordinate(s.sym(1000), s.sym(1000), s.sym(1000)), s.logreal(1e-5, 1e-2), s.real(0.1, 3), s.sym(3)), dev, 1, 2);
            break;
        }
        default:
        {
            PlaneCameraCoordinates seen(gen_direction(s), s.sym(1000));
            PlaneWorldCoordinates plane(gen_direction(s), s.sym(1000));
            vector4 dev(s.real(0, 0.1), s.real(0, 0.1), s.real(0, 0.1), s.real(0, 10));
            const uint64_t at = s.draw(4);
            if (where == 1)
                at == 3 ? seen.d() = wrong : seen.normal()(at) = wrong;
            else if (where == 2)
                at == 3 ? plane.d() = wrong : plane.normal()(at) = wrong;
            else if (where == 3)
                dev(at) = wrong;
            feature = std::make_shared<map_management::PlaneOptimizationFeature>(seen, plane, dev, 1, 2);
        }
    }
    c.note(to_string(feature->get_feature_type()), " with ", wrong, " in ", where);
    PBT_CHECK(c, "invalid", feature->is_valid() == (where == 0), "a ", to_string(feature->get_feature_type()), " with the value ", wrong, " in part ", where, " is valid: ",
              feature->is_valid());
}

static void run(Source& s, Ctx& c)
{
    const uint64_t what = s.draw(24);
    if (what < 8)
        check_coefficients(s, c);
    else if (what < 19)
        check_features(s, c);
    else if (what == 19)
        check_variations(s, c);
    else if (what == 20)
        check_other_variations(s, c);
    else
        check_invalid(s, c);
}

PBT_MAIN((pbt::Property {.id = "P26",
                         .rule = "poses with any orientation (including around the half turns, with both signs of the quaternion), sets of points, "
                                 "inverse depth points and planes seen with offsets around and far from the inlier limits; non-trivial: a rotation of "
                                 "more than 0.1 rad, or a set with inliers and outliers",
                         .setup = camera_setup,
                         .run = run,
                         .describeSetup = describe_camera}))
