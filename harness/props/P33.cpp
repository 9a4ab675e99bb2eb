// needs: all
// scheduled: src/pose_optimization/pose_optimization.cpp src/features/primitives/depth_map_transformation.cpp
// link: -Wl,--wrap=pthread_mutex_lock -Wl,--wrap=pthread_mutex_unlock -Wl,--wrap=_ZN2cv13parallel_for_ERKNS_5RangeERKNS_16ParallelLoopBodyEd
#include "common.hpp"
#include "features/primitives/depth_map_transformation.hpp"
#include "map_management/map_features/map_point.hpp"
#include "pose_optimization/pose_optimization.hpp"
#include "vsched.hpp"
#include <map>
using namespace h;
using features::primitives::Depth_Map_Transformation;
using rgbd_slam::matches_containers::feat_ptr;
using rgbd_slam::matches_containers::IOptimizationFeature;
using rgbd_slam::matches_containers::match_container;
using rgbd_slam::matches_containers::match_sets;
using rgbd_slam::pose_optimization::Pose_Optimization;

static std::unique_ptr<Depth_Map_Transformation> transformation;
static void setup(Source& s)
{
    camera_setup(s);
    Camera c;
    c.w1 = c.w2 = 40 + 20 * static_cast<int>(s.draw(4));
    c.h1 = c.h2 = 40 + 20 * static_cast<int>(s.draw(3));
    c.fx1 = c.fx2 = c.fy1 = c.fy2 = std::round(c.w1 * s.real(0.6, 1.2) * 8) / 8;
    c.cx1 = c.cx2 = c.w1 / 2;
    c.cy1 = c.cy2 = c.h1 / 2;
    if (s.boolean())
    {
        c.fx2 = c.fy2 = std::round(c.w1 * s.real(0.6, 1.4) * 8) / 8;
        c.tx = s.sym(100);
        c.tz = s.sym(100);
        c.ry = s.sym(0.3);
    }
    load_camera(c);
    transformation = std::make_unique<Depth_Map_Transformation>(c.w1, c.h1, 20);
}

static uint64_t mix(uint64_t z)
{
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
    return z ^ (z >> 31);
}

// what the iterations of the optimization did
static std::map<int, std::map<const IOptimizationFeature*, bool>> evaluated;
static uint64_t variationSeed = 0;

// a point, that records its use. Its random variations depend only of the iteration
struct Recorder final : IOptimizationFeature
{
    Recorder(const ScreenCoordinate2D& seen, const WorldCoordinate& p, double score, size_t id) : IOptimizationFeature(id, id), _seen(seen), _p(p), _inner(seen, p, vector3::Ones(), id, id), _score(score)
    {
    }
    size_t get_feature_part_count() const noexcept override { return _inner.get_feature_part_count(); }
    double get_score() const noexcept override
    {
        vsched::preemption_point(false);
        return _score;
    }
    bool is_inlier(const WorldToCameraMatrix& m) const noexcept override
    {
        vsched::preemption_point(false);
        const bool res = _inner.is_inlier(m);
        if (vsched::iteration >= 0)
            evaluated[vsched::iteration][this] = res;
        return res;
    }
    vectorxd get_distance(const WorldToCameraMatrix& m) const noexcept override
    {
        vsched::preemption_point(false);
        return _inner.get_distance(m);
    }
    double get_alpha_reduction() const noexcept override { return _inner.get_alpha_reduction(); }
    feat_ptr compute_random_variation() const noexcept override
    {
        vsched::preemption_point(false);
        uint64_t z = mix(variationSeed + 1000003 * static_cast<uint64_t>(vsched::iteration + 1) + 77 * _idInMap);
        WorldCoordinate p = _p;
        for (int i = 0; i < 3; ++i)
            p[i] += 6 * (static_cast<double>((z = mix(z + 99)) >> 11) / 9007199254740992.0 - 0.5);
        return std::make_shared<Recorder>(_seen, p, _score, _idInMap);
    }
    bool is_valid() const noexcept override { return _inner.is_valid(); }
    FeatureType get_feature_type() const noexcept override { return FeatureType::Point; }
    const ScreenCoordinate2D _seen;
    const WorldCoordinate _p;
    const map_management::PointOptimizationFeature _inner;
    const double _score;
};

// each iteration restarts the random draws of its thread
static void start_run(Source& s, Ctx& c, uint64_t drawsSeed, bool active)
{
    auto& st = vsched::state();
    st.active = active;
    st.switches = st.points = st.contended = st.loops = 0;
    st.deadlock = false;
    if (active)
    {
        st.rng = s.draw(1ull << 40);
        st.threads = 2 + static_cast<unsigned>(s.draw(4));
        const std::vector<uint64_t> runs = {100, 30, 300, 1000, 10000};
        st.meanRun = s.pick(runs);
        c.note("schedule ", st.rng, " on ", st.threads, " threads, runs of ", st.meanRun);
    }
    st.onIteration = [drawsSeed](size_t i) { utils::Random::get_random_engine().seed(static_cast<unsigned>(mix(drawsSeed + i))); };
    evaluated.clear();
}

static void check_pose(Source& s, Ctx& c)
{
    const Camera& k = camera();
    const quaternion q = gen_quaternion(s);
    const vector3 t = gen_vector(s, 3000);
    const utils::PoseBase start(t + gen_vector(s, 40), (q * gen_small_quaternion(s, 0.05)).normalized());
    const WorldToCameraMatrix w2c = utils::compute_world_to_camera_transform(q, t);
    const CameraToWorldMatrix c2w = utils::compute_camera_to_world_transform(q, t);
    // a part of the points moved together: another pose explains them
    const WorldToCameraMatrix other = utils::compute_world_to_camera_transform((q * gen_small_quaternion(s, 0.05)).normalized(), t + gen_vector(s, 100));
    const int n = 8 + static_cast<int>(s.draw(22));
    const int same = std::max(5, n * static_cast<int>(4 + s.draw(7)) / 10), moved = std::min(n - same, static_cast<int>(s.draw(static_cast<uint64_t>(n) / 2)));
    const double noise = s.boolean() ? s.real(0, 2) : 0;
    const std::vector<double> scores = {0.2, 0.25, 0.125};
    const double score = n < 12 ? 0.2 : s.pick(scores);
    match_container features;
    for (int i = 0; i < n; ++i)
    {
        const int cx = i % 4, cy = (i / 4) % 3;
        const double u = (cx + s.unit()) / 4 * (k.w1 - 1), v = (cy + s.unit()) / 3 * (k.h1 - 1), z = s.real(600, 5000);
        const vector3 p = (c2w * vector4((u - k.cx1) / k.fx1 * z, (v - k.cy1) / k.fy1 * z, z, 1)).head<3>();
        const vector4 r = (i >= same and i < same + moved ? other : w2c) * vector4(p.x(), p.y(), p.z(), 1);
        vector2 seen(k.fx1 * r.x() / r.z() + k.cx1, k.fy1 * r.y() / r.z() + k.cy1);
        if (i >= same + moved)
            seen += vector2(s.sym(60), s.sym(60));
        seen += noise * vector2(s.normal(), s.normal());
        features.push_back(std::make_shared<Recorder>(ScreenCoordinate2D(seen.x(), seen.y()), WorldCoordinate(p.x(), p.y(), p.z()), score, static_cast<size_t>(i) + 1));
    }
    variationSeed = s.draw(1 << 30);
    const uint64_t drawsSeed = s.draw(1 << 30);
    c.note(n, " points, ", same, " fixed ", moved, " moved, noise ", noise, " score ", score);

    // the best of the poses that were tried
    const auto judge = [&](const char* what, bool isOk, const match_sets& sets) {
        size_t best = 0, tried = 0;
        std::set<std::set<const IOptimizationFeature*>> candidates;
        for (const auto& [iteration, values]: evaluated)
            if (values.size() == features.size())
            {
                std::set<const IOptimizationFeature*> in;
                for (const auto& [f, isIn]: values)
                    if (isIn)
                        in.insert(f);
                best = std::max(best, in.size());
                candidates.insert(in);
                ++tried;
            }
        c.note(what, ": ", isOk ? "found" : "not found", ", ", sets._inliers.size(), " inliers, the best of the ", tried, " candidates has ", best);
        if (isOk)
        {
            std::set<const IOptimizationFeature*> in, all;
            for (const auto& f: sets._inliers)
                in.insert(f.get());
            all = in;
            for (const auto& f: sets._outliers)
                all.insert(f.get());
            PBT_CHECK(c, "partition", sets._inliers.size() + sets._outliers.size() == features.size() and all.size() == features.size(), what, ": ", sets._inliers.size(),
                      " inliers and ", sets._outliers.size(), " outliers of ", features.size());
            if (tried == 0) // the loops are not the ones that the scheduler controls
                return std::pair(best, candidates.size());
            PBT_CHECK(c, "torn", candidates.count(in) == 1, what, ": the inliers are those of no candidate");
            PBT_CHECK(c, "best", in.size() == best, what, ": ", in.size(), " inliers, but a candidate has ", best, " with the same scores");
        }
        if (candidates.size() > 1)
            c.label("several candidates");
        return std::pair(best, candidates.size());
    };
    utils::Pose result, scheduled;
    match_sets sets, scheduledSets;
    start_run(s, c, drawsSeed, false);
    const bool isOk = Pose_Optimization::compute_optimized_pose(start, features, result, sets);
    judge("in order", isOk, sets);
    start_run(s, c, drawsSeed, true);
    const bool isOk2 = Pose_Optimization::compute_optimized_pose(start, features, scheduled, scheduledSets);
    const auto [best, count] = judge("scheduled", isOk2, scheduledSets);
    const auto& st = vsched::state();
    c.note(st.switches, " preemptions at ", st.points, " points of ", st.loops, " loops");
    if (count > 1 and st.switches > 10)
        c.nontrivial();
    // only the right ones: they give the pose
    bool isRight = isOk2 and noise == 0 and static_cast<int>(scheduledSets._inliers.size()) == same and same > 7;
    for (const auto& f: scheduledSets._inliers)
        isRight = isRight and f->_idInMap <= static_cast<size_t>(same);
    if (isRight)
    {
        const double error = (t - scheduled.get_position()).norm();
        c.label("exact pose");
        PBT_CHECK(c, "pose", error < 1, "the pose is ", error, " mm away");
    }
    // ---- the variance: the same variations, whatever the order
    if (isOk)
    {
        matrix66 a, b;
        const uint iterations = 4 + static_cast<uint>(s.draw(60));
        start_run(s, c, drawsSeed, false);
        const bool okA = Pose_Optimization::compute_pose_variance(result, sets._inliers, a, iterations);
        start_run(s, c, drawsSeed, true);
        const bool okB = Pose_Optimization::compute_pose_variance(result, sets._inliers, b, iterations);
        PBT_CHECK(c, "variance", okA == okB, "in order ", okA, " scheduled ", okB);
        if (okA)
            PBT_CHECK(c, "variance", near(a, b, 1e-6, 1e-9), "in order ", show(a.diagonal().transpose()), " scheduled ", show(b.diagonal().transpose()));
    }
    vsched::state().active = false;
}

static void check_depth(Source& s, Ctx& c)
{
    c.label("depth images");
    const Camera& cam = camera();
    const int w = cam.w1, hh = cam.h1;
    const double base = s.real(200, 4000), slopeX = s.sym(10), slopeY = s.sym(10), rough = s.boolean() ? s.real(0, 500) : 0;
    const uint64_t hashSeed = s.draw(1 << 30);
    cv::Mat_<float> depth(hh, w);
    for (int y = 0; y < hh; ++y)
        for (int x = 0; x < w; ++x)
        {
            const uint64_t z = mix(hashSeed + 0x9E3779B97F4A7C15ULL * static_cast<uint64_t>(y * 4096 + x + 1));
            const double d = base + slopeX * x + slopeY * y + rough * static_cast<double>(z >> 40) / (1 << 24);
            depth(y, x) = d < 40 or z % 13 == 0 ? 0.0f : static_cast<float>(d);
        }
    c.note("base ", base, " slopes ", slopeX, " ", slopeY, " rough ", rough);
    start_run(s, c, 1, false);
    matrixf a, b;
    PBT_CHECK(c, "cloud", transformation->get_organized_cloud_array(depth, a), "refused");
    // the depths that each line gives alone
    std::vector<std::set<float>> allowed(static_cast<size_t>(w * hh));
    for (int y = 0; y < hh; ++y)
    {
        cv::Mat_<float> line = cv::Mat_<float>::zeros(hh, w), out;
        depth.row(y).copyTo(line.row(y));
        PBT_CHECK(c, "rectify", transformation->rectify_depth(line, out), "refused");
        for (int i = 0; i < w * hh; ++i)
            if (out(i / w, i % w) != 0)
                allowed[static_cast<size_t>(i)].insert(out(i / w, i % w));
    }
    start_run(s, c, 1, true);
    cv::Mat_<float> out;
    PBT_CHECK(c, "rectify", transformation->rectify_depth(depth, out), "refused");
    PBT_CHECK(c, "cloud", transformation->get_organized_cloud_array(depth, b), "refused");
    const auto& st = vsched::state();
    c.note(st.switches, " preemptions at ", st.points, " points of ", st.loops, " loops");
    vsched::state().active = false;
    if (st.switches > 10)
        c.nontrivial();
    PBT_CHECK(c, "cloud", a.rows() == b.rows() and a.cols() == b.cols() and a == b, "the cloud depends of the schedule");
    for (int i = 0; i < w * hh; ++i)
    {
        const float got = out(i / w, i % w);
        const auto& can = allowed[static_cast<size_t>(i)];
        PBT_CHECK(c, "rectify", can.empty() ? got == 0 : can.count(got) == 1, "pixel ", i % w, ",", i / w, ": ", got, " is not one of the ", can.size(), " depths seen there");
    }
}

static void run(Source& s, Ctx& c)
{
    if (s.draw(8) == 0)
        check_depth(s, c);
    else
        check_pose(s, c);
}

PBT_MAIN((pbt::Property {.id = "P33",
                         .rule = "poses to find from 8 to 29 matches of which a part moved together or is wrong, their variances, and depth images to rectify, with the "
                                 "parallel loops run on two to five threads under random schedules; non-trivial: more than ten preemptions, and for the poses, candidates "
                                 "with different inliers",
                         .setup = setup,
                         .run = run,
                         .describeSetup = describe_camera}))
