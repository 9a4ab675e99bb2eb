// needs: all
#include "common.hpp"
#include "map_management/map_features/map_point.hpp"
#include "map_management/map_features/map_point2d.hpp"
#include "map_management/map_features/map_primitive.hpp"
#include "pose_optimization/pose_optimization.hpp"
#include "pose_optimization/ransac.hpp"
#include "utils/covariances.hpp"
#include <list>
using namespace h;
using namespace rgbd_slam::pose_optimization;
using rgbd_slam::matches_containers::feat_ptr;
using rgbd_slam::matches_containers::match_container;
using rgbd_slam::matches_containers::match_sets;

// the random draws of the code under test restart for each case
static void reset_random(uint64_t seed)
{
    auto& engine = utils::Random::get_random_engine();
    engine.seed(1);
    const auto before = engine;
    (void)utils::Random::get_normal_double();
    if (not(engine == before)) // a second value is kept by the distribution
        (void)utils::Random::get_normal_double();
    engine.seed(static_cast<unsigned>(seed));
}

struct Scored
{
    double score;
    int id;
    double get_score() const { return score; }
};
using scored_ptr = std::shared_ptr<Scored>;
template<class T> using List = std::list<T>;

static void check_subsets(Source& s, Ctx& c)
{
    c.label("subsets");
    const int n = static_cast<int>(s.draw(20));
    List<int> l;
    for (int i = 0; i < n; ++i)
        l.push_back(static_cast<int>(s.draw(1000)) * 100 + i);
    const uint count = static_cast<uint>(s.draw(static_cast<uint64_t>(n) + 3));
    if (count > static_cast<uint>(n))
    {
        PBT_CHECK(c, "too-many", throws([&] { (void)ransac::get_random_subset(l, count); }), "a subset of ", count, " in ", n);
        PBT_CHECK(c, "too-many", throws([&] { (void)ransac::get_random_subset_with_duplicates(l, count); }), "a subset of ", count, " in ", n);
    }
    else
    {
        if (count > 1)
            c.nontrivial();
        const List<int> got = ransac::get_random_subset(l, count);
        const std::set<int> unique(got.begin(), got.end());
        PBT_CHECK(c, "subset", got.size() == count and unique.size() == count, got.size(), " elements, ", unique.size(), " different, instead of ", count);
        for (const int v: got)
            PBT_CHECK(c, "subset", std::find(l.begin(), l.end(), v) != l.end(), v, " was not in the set");
        const List<int> got2 = ransac::get_random_subset_with_duplicates(l, count);
        PBT_CHECK(c, "subset-duplicates", got2.size() == count, got2.size(), " elements instead of ", count);
        for (const int v: got2)
            PBT_CHECK(c, "subset-duplicates", std::find(l.begin(), l.end(), v) != l.end(), v, " was not in the set");
    }
    // by score
    List<scored_ptr> ls;
    double total = 0;
    for (int i = 0; i < n; ++i)
    {
        ls.push_back(std::make_shared<Scored>(Scored {s.boolean() ? 0.25 : 0.5, i}));
        total += ls.back()->score;
    }
    const double target = 0.25 * static_cast<double>(1 + s.draw(16));
    if (total < target)
        PBT_CHECK(c, "score-too-high", throws([&] { (void)ransac::get_random_subset_with_score(ls, target); }), "target ", target, " total ", total);
    else
    {
        const List<scored_ptr> got = ransac::get_random_subset_with_score(ls, target);
        std::set<int> ids;
        double score = 0, smallest = 0.5;
        for (const auto& g: got)
        {
            ids.insert(g->id);
            score += g->score;
            smallest = std::min(smallest, g->score);
            PBT_CHECK(c, "score-subset", std::find(ls.begin(), ls.end(), g) != ls.end(), "not in the set");
        }
        PBT_CHECK(c, "score-subset", ids.size() == got.size(), "elements are picked twice");
        PBT_CHECK(c, "score-subset", score >= target and score - target < 0.5, "score ", score, " for a target of ", target);
        if (n > 0)
        {
            const List<scored_ptr> dup = ransac::get_random_subset_with_score_with_duplicates(ls, target);
            double scoreDup = 0;
            for (const auto& g: dup)
                scoreDup += g->score;
            PBT_CHECK(c, "score-subset-duplicates", scoreDup >= target and scoreDup - target < 0.5, "score ", scoreDup, " for a target of ", target);
        }
    }
}

static double rotation_angle(const quaternion& a, const quaternion& b)
{
    const matrix33 m = a.toRotationMatrix().transpose() * b.toRotationMatrix();
    const vector3 v(m(2, 1) - m(1, 2), m(0, 2) - m(2, 0), m(1, 0) - m(0, 1));
    return std::atan2(v.norm() / 2, (m.trace() - 1) / 2);
}

static void check_pose(Source& s, Ctx& c)
{
    const Camera& k = camera();
    quaternion q = gen_quaternion(s);
    if (s.draw(4) == 0)
        q = quaternion(Eigen::AngleAxisd(M_PI + s.sym(0.2), vector3(gen_direction(s))));
    vector3 t = gen_vector(s, 3000);
    // the start: as the motion model would predict it, or a pose with coordinates very close to zero
    utils::PoseBase start;
    if (s.draw(3) == 0)
    {
        c.label("start with coordinates close to zero");
        for (double& x: t)
            if (s.boolean())
                x = s.boolean() ? 0 : s.logreal(1e-20, 1e-2);
        vector4 coefficients = q.coeffs();
        for (double& x: coefficients)
            if (s.boolean())
                x = s.boolean() ? 0 : s.logreal(1e-20, 1e-5);
        if (coefficients.norm() > 0.1)
            q.coeffs() = coefficients.normalized();
        start = utils::PoseBase(t, q);
        t += gen_vector(s, 60);
        q = (q * gen_small_quaternion(s, 0.08)).normalized();
    }
    else
        start = utils::PoseBase(t + gen_vector(s, 60), (q * gen_small_quaternion(s, 0.08)).normalized());
    const WorldToCameraMatrix w2c = utils::compute_world_to_camera_transform(q, t);
    const CameraToWorldMatrix c2w = utils::compute_camera_to_world_transform(q, t);
    const auto project = [&](const vector3& p) {
        const vector4 r = w2c * vector4(p.x(), p.y(), p.z(), 1);
        return vector2(k.fx1 * r.x() / r.z() + k.cx1, k.fy1 * r.y() / r.z() + k.cy1);
    };
    // enough points, spread in the image and in depth
    const bool hasPlanes = s.draw(3) == 0;
    const int n = hasPlanes and s.boolean() ? 0 : static_cast<int>(12 + s.draw(40));
    const double noise = s.boolean() ? 0 : 0.2;
    const double deviation = s.real(0, 3);
    match_container features;
    std::set<const void*> wrong;
    for (int i = 0; i < n; ++i)
    {
        // one per cell of a grid, so that they are spread
        const int cx = i % 4, cy = (i / 4) % 3;
        const double u = (cx + s.unit()) / 4 * (k.w1 - 1), v = (cy + s.unit()) / 3 * (k.h1 - 1);
        const double z = s.real(600, 5000);
        const vector3 p = (c2w * vector4((u - k.cx1) / k.fx1 * z, (v - k.cy1) / k.fy1 * z, z, 1)).head<3>();
        const vector2 seen = project(p) + noise * vector2(s.normal(), s.normal());
        features.push_back(std::make_shared<map_management::PointOptimizationFeature>(ScreenCoordinate2D(seen.x(), seen.y()), WorldCoordinate(p.x(), p.y(), p.z()),
                                                                                      vector3::Constant(deviation), static_cast<size_t>(i) + 1, static_cast<size_t>(i)));
    }
    // planes: the walls of a box
    if (hasPlanes)
    {
        const quaternion box = gen_quaternion(s);
        for (int i = 0; i < 6; ++i)
        {
            vector3 e = vector3::Zero();
            e[i % 3] = i < 3 ? 1 : -1;
            const vector3 normal = box * e;
            const double distance = s.real(300, 4000);
            // n.x + d = 0, in front of the origin of the camera
            const double d = -normal.dot(t) - distance;
            const vector3 cn = w2c.block<3, 3>(0, 0) * normal;
            const double cd = d - cn.dot(w2c.block<3, 1>(0, 3));
            features.push_back(std::make_shared<map_management::PlaneOptimizationFeature>(PlaneCameraCoordinates(cn, cd), PlaneWorldCoordinates(normal, d),
                                                                                          vector4(0.001, 0.001, 0.001, deviation), 1000 + static_cast<size_t>(i), static_cast<size_t>(i)));
        }
        c.label(n ? "points and planes" : "planes only");
    }
    // wrong matches, far from their true place
    const int wrongCount = static_cast<int>(s.draw(static_cast<uint64_t>(n) / 4 + 1));
    for (int i = 0; i < wrongCount; ++i)
    {
        const double z = s.real(600, 5000);
        const double u = s.real(0, k.w1 - 1), v = s.real(0, k.h1 - 1);
        const vector3 p = (c2w * vector4((u - k.cx1) / k.fx1 * z, (v - k.cy1) / k.fy1 * z, z, 1)).head<3>();
        const double angle = s.real(0, 2 * M_PI), length = s.real(40, 300);
        const vector2 seen = project(p) + length * vector2(std::cos(angle), std::sin(angle));
        auto f = std::make_shared<map_management::PointOptimizationFeature>(ScreenCoordinate2D(seen.x(), seen.y()), WorldCoordinate(p.x(), p.y(), p.z()),
                                                                           vector3::Constant(deviation), 500 + static_cast<size_t>(i), 500 + static_cast<size_t>(i));
        wrong.insert(f.get());
        auto it = features.begin();
        std::advance(it, static_cast<long>(s.draw(features.size() + 1)));
        features.insert(it, f);
    }
    if (wrongCount > 0)
        c.label("outliers");
    c.note(n, " points ", hasPlanes ? "6 planes " : "", wrongCount, " wrong matches, noise ", noise, " pose ", show(t.transpose()), " ", show(q));
    c.note("start ", show(start.get_position().transpose()), " ", show(start.get_orientation_quaternion()));
    reset_random(s.draw(1000000));
    utils::Pose result;
    match_sets sets;
    const bool isOk = Pose_Optimization::compute_optimized_pose(start, features, result, sets);
    PBT_CHECK(c, "optimization", isOk, "no pose was found");
    if (n > 0 and (wrongCount > 0 or hasPlanes))
        c.nontrivial();
    const double error = (result.get_position() - t).norm(), angle = rotation_angle(q, result.get_orientation_quaternion());
    const double tolerance = noise > 0 ? 25 : 0.5, angleTolerance = noise > 0 ? 0.01 : 5e-4;
    PBT_CHECK(c, "pose", error < tolerance and angle < angleTolerance, "position error ", error, " mm, rotation error ", angle, " rad");
    // each match is an inlier or an outlier
    std::multiset<const void*> in, got;
    for (const auto& f: features)
        in.insert(f.get());
    for (const auto& f: sets._inliers)
    {
        got.insert(f.get());
        PBT_CHECK(c, "wrong-inlier", wrong.count(f.get()) == 0, "a wrong match is an inlier");
    }
    for (const auto& f: sets._outliers)
        got.insert(f.get());
    PBT_CHECK(c, "partition", got == in, "the inliers (", sets._inliers.size(), ") and outliers (", sets._outliers.size(), ") are not the ", in.size(), " matches");
    if (noise == 0)
        PBT_CHECK(c, "outliers", sets._outliers.size() == wrong.size(), sets._outliers.size(), " outliers instead of ", wrong.size());
    // covariance
    const matrix66 covariance = result.get_pose_variance();
    std::string msg;
    PBT_CHECK(c, "covariance", covariance.allFinite() and utils::is_covariance_valid(covariance, msg), msg, " ", show(covariance));
    PBT_CHECK(c, "covariance", near(covariance, covariance.transpose(), 1e-9, 1e-12) and Eigen::SelfAdjointEigenSolver<matrix66>(covariance).eigenvalues().minCoeff() > 0,
              show(covariance));
    // the variations of the features are small: those of the pose are too
    for (int i = 0; i < 3; ++i)
        PBT_CHECK(c, "position-variance", covariance(i, i) < 200 * 200, "position variance ", show(covariance.diagonal().transpose()));
    for (int i = 3; i < 6; ++i)
        PBT_CHECK(c, "rotation-variance", covariance(i, i) < 0.3 * 0.3, "rotation variance ", show(covariance.diagonal().transpose()));
}

static void check_refusals(Source& s, Ctx& c)
{
    c.label("refusals");
    const WorldToCameraMatrix w2c = utils::compute_world_to_camera_transform(quaternion::Identity(), vector3::Zero());
    (void)w2c;
    const Camera& k = camera();
    match_container features;
    const bool isInvalid = s.boolean();
    const int n = isInvalid ? 10 : static_cast<int>(s.draw(5));
    for (int i = 0; i < n; ++i)
    {
        const double u = s.real(0, k.w1 - 1), v = s.real(0, k.h1 - 1), z = s.real(600, 5000);
        const CameraToWorldMatrix c2w = utils::compute_camera_to_world_transform(quaternion::Identity(), vector3::Zero());
        vector3 p = (c2w * vector4((u - k.cx1) / k.fx1 * z, (v - k.cy1) / k.fy1 * z, z, 1)).head<3>();
        vector3 dev = vector3::Ones();
        if (isInvalid and i == 4)
        {
            if (s.boolean())
                p[static_cast<long>(s.draw(3))] = NAN;
            else
                dev[static_cast<long>(s.draw(3))] = s.boolean() ? NAN : -1;
        }
        features.push_back(std::make_shared<map_management::PointOptimizationFeature>(ScreenCoordinate2D(u, v), WorldCoordinate(p.x(), p.y(), p.z()), dev, 1 + static_cast<size_t>(i),
                                                                                      static_cast<size_t>(i)));
    }
    utils::Pose result(vector3(1, 2, 3), quaternion::Identity());
    match_sets sets;
    const bool isOk = Pose_Optimization::compute_optimized_pose(utils::PoseBase(vector3::Zero(), quaternion::Identity()), features, result, sets);
    PBT_CHECK(c, "refusal", not isOk, "a pose is computed from ", n, isInvalid ? " matches, one is invalid" : " points");
}

static void run(Source& s, Ctx& c)
{
    const uint64_t what = s.draw(10);
    reset_random(s.draw(1000000));
    if (what < 3)
        check_subsets(s, c);
    else if (what == 3)
        check_refusals(s, c);
    else
        check_pose(s, c);
}

PBT_MAIN((pbt::Property {.id = "P23",
                         .rule = "random subsets by count and by score, and poses to find from 12 to 51 spread points and/or six planes with up to 20 % of "
                                 "wrong matches and small noise, from a start at most 60 mm per axis and 0.08 rad away; non-trivial: subsets of two or more, poses "
                                 "with wrong matches or mixed features",
                         .setup = camera_setup,
                         .run = run,
                         .describeSetup = describe_camera}))
