// needs: all
#include "geometry2d.hpp"
#include "map_management/map_features/map_point.hpp"
#include "map_management/map_features/map_point2d.hpp"
#include "map_management/map_features/map_primitive.hpp"
#include <set>
using namespace h;
using namespace rgbd_slam::map_management;
using features::primitives::Plane_Segment;
using matches_containers::match_container;

// keeps what is written
struct Recorder : public outputs::IMap_Writer
{
    Recorder() : outputs::IMap_Writer("recorder.txt") {}
    void add_point(const vector3& p) noexcept override { points.push_back(p); }
    void add_line(const std::vector<vector3>&) noexcept override { ++lines; }
    void add_polygon(const std::vector<vector3>& p, const vector3&) noexcept override
    {
        vector3 center = vector3::Zero();
        for (const vector3& v: p)
            center += v / static_cast<double>(p.size());
        points.push_back(center);
    }
    std::vector<vector3> points;
    int lines = 0;
};

enum class Kind
{
    Point,
    Point2d,
    Plane
};

// something of the scene, that the map should know as one feature
struct Item
{
    vector3 world;     // position (points), or center of the boundary (planes)
    vector3 direction = vector3::UnitZ(); // planes: normal in world space
    double u = 0, v = 0, z = 0;
    cv::Mat descriptor;
    // model of the map feature
    enum State
    {
        None,
        Staged,
        Local
    } state = None;
    size_t id = 0;
    int count = 0;
    int failed = 0;
    bool isMatched = false;
};

struct Limits
{
    int promote, lost;
    bool isPlane;
};

static void model_update(Item& i, const Limits& l, bool isTracking, std::vector<const Item*>& written)
{
    if (i.state == Item::None)
        return;
    if (i.isMatched)
    {
        i.failed = 0;
        i.count++;
    }
    else
    {
        i.failed++;
        i.count--;
    }
    if (i.state == Item::Local)
    {
        if (i.failed >= l.lost)
        {
            written.push_back(&i);
            i.state = Item::None;
            i.isMatched = false;
        }
        return;
    }
    if (isTracking and i.count >= l.promote)
        i.state = Item::Local;
    else if (l.isPlane ? i.failed >= 2 : i.count <= 0)
    {
        i.state = Item::None;
        i.isMatched = false;
    }
}

static Plane_Segment segment_of(const vector3& n, double d)
{
    Plane_Segment::set_static_members(20, 400);
    matrixf cloud = matrixf::Zero(400, 3);
    for (int i = 0; i < 20; ++i)
        for (int j = 0; j < 20; ++j)
        {
            const vector3 ray((j - 9.5) / 550, (i - 9.5) / 550, 1);
            cloud.row(i * 20 + j) = (ray * (-d / n.dot(ray))).transpose().cast<float>();
        }
    Plane_Segment seg;
    seg.init_plane_segment(cloud, 0);
    return seg;
}

// distance of what is saved to the true feature. The boundary of a plane is merged at each detection, its center moves a bit
static double saved_distance(const Item& i, const std::vector<vector3>& saved, const bool isPlane)
{
    double best = std::numeric_limits<double>::infinity();
    for (const vector3& p: saved)
    {
        const vector3 d = p - i.world;
        const double lateral = (d - i.direction * i.direction.dot(d)).norm();
        best = std::min(best, isPlane ? std::abs(i.direction.dot(d)) + (lateral < 1.3 * i.z ? 0 : lateral) : d.norm());
    }
    return best;
}

template<class Map> static void history(Source& s, Ctx& c, const Kind kind)
{
    const Camera& k = camera();
    c.label(kind == Kind::Point ? "points" : kind == Kind::Point2d ? "2D points" : "planes");
    c.note(kind == Kind::Point ? "points" : kind == Kind::Point2d ? "2D points" : "planes");
    const Limits limits = kind == Kind::Plane ? Limits {4, static_cast<int>(parameters::mapping::planeUnmatchedCountToLoose), true}
                                              : Limits {static_cast<int>(parameters::mapping::pointStagedAgeConfidence),
                                                        static_cast<int>(parameters::mapping::pointUnmatchedCountToLoose) + 1, false};
    const size_t minimum = kind == Kind::Plane ? parameters::optimization::minimumPlanesForOptimization
                           : kind == Kind::Point ? parameters::optimization::minimumPointForOptimization
                                                 : parameters::optimization::minimumPoint2dForOptimization;
    Map map;
    PBT_CHECK(c, "minimum", map.minimum_features_for_opti() == minimum, map.minimum_features_for_opti());
    auto recorder = std::make_shared<Recorder>();

    const quaternion baseQ = gen_quaternion(s);
    const vector3 baseT = gen_vector(s, 2000);
    const CameraToWorldMatrix baseC2w = utils::compute_camera_to_world_transform(baseQ, baseT);

    // the scene: well separated on the screen
    std::vector<Item> items;
    if (kind == Kind::Plane)
    {
        // each has its own distance and faces the camera
        const int n = static_cast<int>(1 + s.draw(4));
        for (int i = 0; i < n; ++i)
        {
            Item item;
            const double tilt = s.real(0, 0.3), turn = s.real(0, 2 * M_PI);
            item.direction = baseC2w.rotation() * vector3(sin(tilt) * cos(turn), sin(tilt) * sin(turn), -cos(tilt));
            const double z = 700 + 600 * i + s.real(0, 100);
            item.world = (baseC2w * vector4(s.sym(30), s.sym(30), z, 1)).template head<3>();
            item.z = z * s.real(0.04, 0.12); // half size
            items.push_back(item);
        }
    }
    else
    {
        const int step = 90;
        const int columns = (k.w1 - 40) / step, rows = (k.h1 - 40) / step;
        const int all = std::max(1, columns) * std::max(1, rows);
        const int n = static_cast<int>(1 + s.draw(static_cast<uint64_t>(std::min(all, 24))));
        std::vector<int> cells(static_cast<size_t>(all));
        for (int i = 0; i < all; ++i)
            cells[static_cast<size_t>(i)] = i;
        for (int i = 0; i < n; ++i)
        {
            std::swap(cells[static_cast<size_t>(i)], cells[static_cast<size_t>(i) + s.draw(static_cast<uint64_t>(all - i))]);
            const int cell = cells[static_cast<size_t>(i)];
            Item item;
            item.u = 20 + step * (cell % std::max(1, columns) + 0.5) + s.sym(8);
            item.v = 20 + step * (cell / std::max(1, columns) + 0.5) + s.sym(8);
            item.z = s.real(600, 4000);
            item.world = (baseC2w * vector4((item.u - k.cx1) / k.fx1 * item.z, (item.v - k.cy1) / k.fy1 * item.z, item.z, 1)).template head<3>();
            item.descriptor = cv::Mat(1, 32, CV_8UC1);
            for (int b = 0; b < 32; ++b)
                item.descriptor.template at<uchar>(0, b) = static_cast<uchar>(s.draw(256));
            items.push_back(item);
        }
    }
    const matrix33 poseCovariance = gen_spd<3>(s, 0.01, 1);
    std::set<size_t> usedIds;
    bool wasLocal = false, wasLost = false, hadOutlier = false;
    std::set<size_t> trackedIds;
    const double presence = s.real(0.5, 1);
    const int frames = static_cast<int>(1 + s.draw(40));
    for (int f = 0; f < frames; ++f)
    {
        const auto stage_count = [&](Item::State state) {
            return static_cast<size_t>(std::count_if(items.begin(), items.end(), [&](const Item& i) { return i.state == state; }));
        };
        const auto check_sizes = [&](const char* what) {
            PBT_CHECK(c, what, map.get_local_map_size() == stage_count(Item::Local) and map.get_staged_map_size() == stage_count(Item::Staged) and
                                       map.size() == stage_count(Item::Local) + stage_count(Item::Staged),
                      "frame ", f, ": ", map.get_local_map_size(), " local and ", map.get_staged_map_size(), " staged features instead of ", stage_count(Item::Local), " and ",
                      stage_count(Item::Staged));
        };
        // a long blind period, once in a while
        const bool isBlind = (f % 20) >= 5 and (f % 20) < 5 + static_cast<int>(s.draw(14));
        const uint64_t event = s.draw(16);
        if (event == 15 and s.draw(4) == 0)
        {
            c.label("reset");
            map.reset();
            for (Item& i: items)
            {
                i.state = Item::None;
                i.isMatched = false;
            }
            check_sizes("reset");
            c.note("frame ", f, " reset");
        }
        const bool isAway = event == 14;
        // the camera moves a bit
        const bool isStatic = kind == Kind::Point2d or s.draw(3) == 0;
        const vector3 t = isStatic ? baseT : vector3(baseT + gen_vector(s, kind == Kind::Plane ? 20 : 5));
        quaternion q = (isStatic ? baseQ : (baseQ * gen_small_quaternion(s, 0.01)).normalized());
        if (isAway)
            q = (q * quaternion(Eigen::AngleAxisd(M_PI, vector3::UnitZ()))).normalized();
        const WorldToCameraMatrix w2c = utils::compute_world_to_camera_transform(q, t);
        const CameraToWorldMatrix c2w = utils::compute_camera_to_world_transform(q, t);

        // detections
        features::primitives::plane_container planes;
        features::keypoints::Keypoint_Handler handler(static_cast<uint>(k.w1), static_cast<uint>(k.h1), 0.7);
        std::vector<cv::Point2f> points;
        cv::Mat descriptors;
        features::keypoints::KeypointsWithIdStruct withIds;
        std::vector<int> detectionOf(items.size(), -1);
        std::vector<int> itemOf;
        std::vector<char> canAdd;
        // a new detection order at each frame
        std::vector<size_t> order(items.size());
        for (size_t i = 0; i < items.size(); ++i)
            order[i] = i;
        for (size_t i = items.size(); i > 1; --i)
            std::swap(order[i - 1], order[s.draw(i)]);
        cv::Mat_<float> depth = cv::Mat_<float>::zeros(k.h1, k.w1);
        std::vector<std::pair<size_t, vector2>> tracked;
        for (const size_t i: order)
        {
            Item& item = items[i];
            if (isBlind or isAway or s.unit() > presence)
                continue;
            const vector3 p = (w2c * vector4(item.world.x(), item.world.y(), item.world.z(), 1)).template head<3>();
            if (kind == Kind::Plane)
            {
                const vector3 n = w2c.rotation() * item.direction;
                const double d = -n.dot(p);
                const Plane_Segment seg = segment_of(n, d);
                if (not seg.is_planar())
                    continue;
                const vector3 ux = n.unitOrthogonal(), uy = n.cross(ux).normalized();
                const double half = item.z * s.real(0.8, 1.2);
                const Poly square = {vector2(-half, -half), vector2(half, -half), vector2(half, half), vector2(-half, half)};
                detectionOf[i] = static_cast<int>(planes.size());
                itemOf.push_back(static_cast<int>(i));
                canAdd.push_back(true);
                planes.emplace_back(seg, CameraPolygon(to_boost(square), ux, uy, p));
            }
            else
            {
                const vector2 pixel(k.fx1 * p.x() / p.z() + k.cx1, k.fy1 * p.y() / p.z() + k.cy1);
                const bool hasDepth = kind == Kind::Point ? item.state != Item::None or s.draw(5) != 0 : false;
                if (hasDepth)
                    for (int dy = -1; dy <= 1; ++dy)
                        for (int dx = -1; dx <= 1; ++dx)
                            depth(static_cast<int>(std::lround(pixel.y())) + dy, static_cast<int>(std::lround(pixel.x())) + dx) = static_cast<float>(p.z());
                if (trackedIds.count(item.id) and item.state == Item::Local and s.boolean())
                {
                    tracked.emplace_back(i, pixel);
                    continue;
                }
                detectionOf[i] = static_cast<int>(points.size());
                itemOf.push_back(static_cast<int>(i));
                canAdd.push_back(kind == Kind::Point2d or hasDepth);
                points.emplace_back(static_cast<float>(pixel.x()), static_cast<float>(pixel.y()));
                cv::Mat d = item.descriptor.clone();
                for (uint64_t flips = s.draw(4); flips > 0; --flips)
                    d.at<uchar>(0, static_cast<int>(s.draw(32))) ^= static_cast<uchar>(1u << s.draw(8));
                if (descriptors.empty())
                    descriptors = d;
                else
                    cv::vconcat(descriptors, d, descriptors);
            }
        }
        for (const auto& [i, pixel]: tracked)
        {
            c.label("tracked points");
            detectionOf[i] = static_cast<int>(itemOf.size());
            itemOf.push_back(static_cast<int>(i));
            canAdd.push_back(false);
            withIds.add(items[i].id, pixel.x(), pixel.y());
        }
        if (kind != Kind::Plane)
            handler.set(points, descriptors, withIds, depth);
        const DetectedFeatureContainer detected(handler, features::lines::line_container(), planes);
        c.note("frame ", f, " detections ", itemOf.size(), isAway ? " away" : "", " local ", stage_count(Item::Local), " staged ", stage_count(Item::Staged));

        // matches
        match_container matches;
        map.get_matches(detected, w2c, static_cast<uint>(minimum), matches);
        size_t localMatches = 0, stagedMatches = 0;
        for (size_t i = 0; i < items.size(); ++i)
        {
            items[i].isMatched = items[i].state != Item::None and detectionOf[i] >= 0;
            localMatches += items[i].isMatched and items[i].state == Item::Local;
            stagedMatches += items[i].isMatched and items[i].state == Item::Staged;
        }
        const size_t expectedCount = localMatches + (localMatches < 3 * minimum ? stagedMatches : 0);
        std::string list;
        std::set<size_t> seenItems;
        for (const auto& m: matches)
        {
            list += cat(m->_idInMap, ":", m->_detectedFeatureId, " ");
            PBT_CHECK(c, "match", m->_detectedFeatureId < itemOf.size() and m->_idInMap > 0 and m->get_feature_type() == map.get_feature_type(), "match ", m->_idInMap, ":",
                      m->_detectedFeatureId);
            const auto index = static_cast<size_t>(itemOf[m->_detectedFeatureId]);
            Item& item = items[index];
            PBT_CHECK(c, "match", item.isMatched and seenItems.insert(index).second, "the thing ", index, " is not in the map, or is matched twice: ", list);
            // the same thing always has the same id
            if (item.id == 0)
            {
                PBT_CHECK(c, "unique-id", usedIds.insert(m->_idInMap).second, "the id ", m->_idInMap, " is used again");
                item.id = m->_idInMap;
            }
            PBT_CHECK(c, "same-id", item.id == m->_idInMap, "the feature ", item.id, " is now ", m->_idInMap);
            PBT_CHECK(c, "match-valid", m->is_valid(), "match ", list);
            if (kind != Kind::Point2d)
                PBT_CHECK(c, "match-inlier", m->is_inlier(w2c), "the match of the feature ", m->_idInMap, " is not close to its observation: ", show(m->get_distance(w2c).transpose()));
        }
        PBT_CHECK(c, "match-count", matches.size() == expectedCount, "frame ", f, ": ", matches.size(), " matches (", list, ") instead of ", localMatches, " local and ", stagedMatches,
                  " staged");
        if (localMatches >= 3 * minimum and stagedMatches)
            c.label("staged features not used");

        if (event < 3)
        {
            c.label("no tracking");
            map.update_with_no_tracking(recorder);
            for (Item& i: items)
                i.isMatched = false;
        }
        else
        {
            // outliers
            match_container outliers;
            std::set<size_t> outlierDetections;
            if (event < 6)
                for (const auto& m: matches)
                    if (s.draw(3) == 0)
                    {
                        hadOutlier = true;
                        outliers.push_back(m);
                        outlierDetections.insert(m->_detectedFeatureId);
                        items[static_cast<size_t>(itemOf[m->_detectedFeatureId])].isMatched = false;
                    }
            map.mark_outliers_as_unmatched(outliers);
            const matchIndexSet used = map.update_map(c2w, poseCovariance, detected, recorder);
            std::set<size_t> expectedUsed;
            for (size_t i = 0; i < items.size(); ++i)
                if (items[i].isMatched)
                    expectedUsed.insert(static_cast<size_t>(detectionOf[i]));
            PBT_CHECK(c, "used", std::set<size_t>(used.begin(), used.end()) == expectedUsed, "frame ", f, ": ", used.size(), " detections used instead of ", expectedUsed.size());
        }
        std::vector<const Item*> written;
        for (Item& i: items)
        {
            const auto before = i.state;
            model_update(i, limits, event >= 3, written);
            wasLocal |= i.state == Item::Local;
            if (i.state == Item::None)
            {
                wasLost |= before == Item::Local;
                i.id = 0;
            }
        }
        check_sizes("life");
        // the lost features are saved, once
        PBT_CHECK(c, "written", recorder->points.size() == (kind == Kind::Point2d ? 0 : written.size()), "frame ", f, ": ", recorder->points.size(), " features saved instead of ",
                  written.size());
        const auto check_written = [&] {
            for (const Item* i: written)
            {
                const double best = saved_distance(*i, recorder->points, kind == Kind::Plane);
                PBT_CHECK(c, "written-place", best < 10, "the feature at ", show(i->world.transpose()), " is not saved there, the closest is at ", best);
            }
            recorder->points.clear();
        };
        if (kind != Kind::Point2d)
            check_written();
        // new features
        if (event >= 3)
        {
            matchIndexSet used;
            for (size_t d = 0; d < itemOf.size(); ++d)
            {
                const Item& item = items[static_cast<size_t>(itemOf[d])];
                if (item.state != Item::None or s.draw(6) == 0)
                    used.emplace(d);
            }
            map.add_features_to_staged_map(poseCovariance, c2w, detected, used);
            for (size_t d = 0; d < itemOf.size(); ++d)
                if (not used.contains(d) and canAdd[d])
                {
                    Item& item = items[static_cast<size_t>(itemOf[d])];
                    item.state = Item::Staged;
                    item.id = 0;
                    item.count = item.failed = 0;
                    item.isMatched = false;
                }
            check_sizes("add");
        }
        // features to track in the next image: those matched, where they are now
        TrackedFeaturesContainer container;
        map.get_tracked_features(w2c, container, 0);
        trackedIds.clear();
        if (kind == Kind::Point)
        {
            std::map<size_t, size_t> expected;
            bool isComplete = true;
            for (size_t i = 0; i < items.size(); ++i)
                if (items[i].state == Item::Local and items[i].isMatched)
                {
                    // features that were never used in a set of matches have an unknown id
                    if (items[i].id)
                        expected[items[i].id] = i;
                    else
                        isComplete = false;
                }
            const auto& got = *container.trackedPoints;
            for (size_t i = 0; i < got.size(); ++i)
            {
                const auto p = got.at(i);
                if (not expected.count(p._id))
                {
                    PBT_CHECK(c, "to-track", not isComplete, "the feature ", p._id, " is tracked");
                    continue;
                }
                PBT_CHECK(c, "to-track", trackedIds.insert(p._id).second, "the feature ", p._id, " is tracked twice");
                const Item& item = items[expected[p._id]];
                const vector3 r = (w2c * vector4(item.world.x(), item.world.y(), item.world.z(), 1)).template head<3>();
                PBT_CHECK(c, "to-track", std::hypot(p._point.x - (k.fx1 * r.x() / r.z() + k.cx1), p._point.y - (k.fy1 * r.y() / r.z() + k.cy1)) < 5, "the feature ", p._id,
                          " is tracked at ", p._point.x, " ", p._point.y);
            }
            PBT_CHECK(c, "to-track", trackedIds.size() == expected.size(), trackedIds.size(), " features to track instead of ", expected.size());
        }
        else
            PBT_CHECK(c, "to-track", container.trackedPoints->empty(), "these features are not tracked");
        if (kind != Kind::Point2d)
            PBT_CHECK(c, "upgrade", map.get_upgraded_features(c2w).empty(), "these features cannot be upgraded");
        if (s.draw(20) == 0)
        {
            cv::Mat image = cv::Mat::zeros(k.h1, k.w1, CV_8UC3);
            map.draw_on_image(w2c, image, true);
            check_sizes("draw");
        }
    }
    if (wasLocal and (wasLost or hadOutlier))
        c.nontrivial();
    if (wasLost)
        c.label("lost");
    // the end of the program saves the local map
    map.destroy(recorder);
    size_t local = 0;
    for (const Item& i: items)
        if (i.state == Item::Local)
        {
            ++local;
            if (kind == Kind::Point2d)
                continue;
            const double best = saved_distance(i, recorder->points, kind == Kind::Plane);
            PBT_CHECK(c, "destroy", best < 10, "the feature at ", show(i.world.transpose()), " is not saved, the closest is at ", best);
        }
    PBT_CHECK(c, "destroy", recorder->points.size() == (kind == Kind::Point2d ? 0 : local), recorder->points.size(), " features saved instead of ", local);
    std::remove("recorder.txt");
}

static void run(Source& s, Ctx& c)
{
    const uint64_t kind = s.draw(10);
    if (kind < 5)
        history<localPointMap>(s, c, Kind::Point);
    else if (kind < 8)
        history<localPlaneMap>(s, c, Kind::Plane);
    else
        history<localPoint2DMap>(s, c, Kind::Point2d);
}

PBT_MAIN((pbt::Property {.id = "P25",
                         .rule = "histories of up to 40 frames over a scene of separated points, 2D points or planes: detections in any order, missing "
                                 "detections, blind periods, tracked points, outliers, failed trackings, resets, small camera moves; non-trivial: a feature "
                                 "reached the local map, and one was lost or had an outlier",
                         .setup = camera_setup,
                         .run = run,
                         .describeSetup = describe_camera}))
