// needs: all
#include "geometry2d.hpp"
#include "map_management/local_map.hpp"
#include "map_management/map_features/map_point.hpp"
#include "map_management/map_features/map_point2d.hpp"
#include "map_management/map_features/map_primitive.hpp"
#include <fstream>
#include <set>
using namespace h;
using namespace rgbd_slam::map_management;
using features::primitives::Plane_Segment;
using matches_containers::match_container;

using Whole = Local_Map<localPoint2DMap, localPointMap, localPlaneMap>;

// the three maps, each driven on its own
struct Parts
{
    localPoint2DMap points2d;
    localPointMap points;
    localPlaneMap planes;
    std::shared_ptr<outputs::IMap_Writer> writer = std::make_shared<outputs::OBJ_Map_Writer>("parts");
    template<class F> void each(F&& f)
    {
        f(points2d);
        f(points);
        f(planes);
    }
};

struct Item
{
    bool isPlane = false;
    vector3 world;
    vector3 direction = vector3::UnitZ();
    double size = 0;
    cv::Mat descriptor;
    double depthChance = 0;  // chance that the depth appears, at each detection
    bool hasDepth = false;   // the depth is always known afterwards: two map features for a single thing would make the matches ambiguous
    size_t idWhole = 0, idParts = 0; // ids of the tracked features
};

static Plane_Segment segment_of(const vector3& n, double d)
{
    Plane_Segment::set_static_members(20, 400);
    matrixf cloud = matrixf::Zero(400, 3);
    for (int i = 0; i < 20; ++i)
        for (int j = 0; j < 20; ++j)
        {
            const vector3 ray((j - 9.5) / 550, (i - 9.5) / 550, 1);
            cloud.row(i * 20 + j) = (ray * (-d / n.dot(ray))).transpose().cast<float>();
        }
    Plane_Segment seg;
    seg.init_plane_segment(cloud, 0);
    return seg;
}

struct Saved
{
    std::vector<vector3> vertices;
    std::map<std::string, size_t> elements; // points, polygons
};
static Saved saved(const std::string& file)
{
    Saved res;
    std::ifstream in(file);
    std::string line;
    while (std::getline(in, line))
    {
        std::istringstream l(line);
        std::string type;
        if (not(l >> type))
            continue;
        vector3 v;
        if (type == "v" and l >> v.x() >> v.y() >> v.z())
            res.vertices.push_back(v);
        else
            res.elements[type]++;
    }
    return res;
}

// what can be seen of a match, without the ids
struct Seen
{
    int type;
    size_t detection;
    std::vector<double> distance;
};
static std::vector<Seen> seen(const match_container& matches, const WorldToCameraMatrix& w2c)
{
    std::vector<Seen> res;
    for (const auto& m: matches)
    {
        const vectorxd d = m->get_distance(w2c);
        res.push_back({static_cast<int>(m->get_feature_type()), m->_detectedFeatureId, std::vector<double>(d.data(), d.data() + d.size())});
    }
    std::sort(res.begin(), res.end(), [](const Seen& a, const Seen& b) { return std::tie(a.type, a.detection) < std::tie(b.type, b.detection); });
    return res;
}
static std::string text(const std::vector<Seen>& v)
{
    std::string res;
    for (const Seen& s: v)
    {
        res += cat(s.type, ":", s.detection);
        for (size_t i = 0; i < s.distance.size(); ++i)
            res += cat(i ? "," : "(", s.distance[i]);
        res += ") ";
    }
    return res;
}

static void run(Source& s, Ctx& c)
{
    const Camera& k = camera();
    std::remove("out.obj");
    std::remove("parts.obj");
    auto whole = std::make_unique<Whole>();
    auto parts = std::make_unique<Parts>();

    const quaternion baseQ = gen_quaternion(s);
    const vector3 baseT = gen_vector(s, 2000);
    const CameraToWorldMatrix baseC2w = utils::compute_camera_to_world_transform(baseQ, baseT);

    std::vector<Item> items;
    const int planeCount = static_cast<int>(s.draw(4));
    for (int i = 0; i < planeCount; ++i)
    {
        Item item;
        item.isPlane = true;
        const double tilt = s.real(0, 0.3), turn = s.real(0, 2 * M_PI);
        item.direction = baseC2w.rotation() * vector3(sin(tilt) * cos(turn), sin(tilt) * sin(turn), -cos(tilt));
        const double z = 700 + 600 * i + s.real(0, 100);
        item.world = (baseC2w * vector4(s.sym(30), s.sym(30), z, 1)).head<3>();
        item.size = z * s.real(0.04, 0.12);
        items.push_back(item);
    }
    {
        const int step = 90;
        const int columns = std::max(1, (k.w1 - 40) / step), rows = std::max(1, (k.h1 - 40) / step);
        const int all = columns * rows;
        const int n = static_cast<int>(1 + s.draw(static_cast<uint64_t>(std::min(all, 20))));
        std::vector<int> cells(static_cast<size_t>(all));
        for (int i = 0; i < all; ++i)
            cells[static_cast<size_t>(i)] = i;
        const double withDepth = s.unit();
        for (int i = 0; i < n; ++i)
        {
            std::swap(cells[static_cast<size_t>(i)], cells[static_cast<size_t>(i) + s.draw(static_cast<uint64_t>(all - i))]);
            const int cell = cells[static_cast<size_t>(i)];
            Item item;
            const double u = 20 + step * (cell % columns + 0.5) + s.sym(8), v = 20 + step * (cell / columns + 0.5) + s.sym(8), z = s.real(600, 4000);
            item.world = (baseC2w * vector4((u - k.cx1) / k.fx1 * z, (v - k.cy1) / k.fy1 * z, z, 1)).head<3>();
            // always, never, or later seen with a depth
            item.depthChance = s.unit() < withDepth ? 1 : s.boolean() ? 0 : s.real(0.05, 0.6);
            item.descriptor = cv::Mat(1, 32, CV_8UC1);
            for (int b = 0; b < 32; ++b)
                item.descriptor.at<uchar>(0, b) = static_cast<uchar>(s.draw(256));
            items.push_back(item);
        }
    }
    matrix66 poseVariance = gen_spd<6>(s, 0.01, 1);
    const double presence = s.real(0.6, 1);
    const int frames = static_cast<int>(2 + s.draw(30));
    bool hadUpgrade = false, hadMatches = false;
    size_t upgradedCount = 0;
    std::vector<std::pair<size_t, vector3>> lastUpgraded; // item, coordinates
    for (int f = 0; f < frames; ++f)
    {
        const uint64_t event = s.draw(20);
        const bool isStatic = s.draw(3) == 0;
        const vector3 t = isStatic ? baseT : vector3(baseT + gen_vector(s, 8));
        const quaternion q = isStatic ? baseQ : (baseQ * gen_small_quaternion(s, 0.005)).normalized();
        const utils::Pose pose(t, q, poseVariance);
        // the same numbers, to the last bit
        const WorldToCameraMatrix w2c = utils::compute_world_to_camera_transform(pose.get_orientation_quaternion(), pose.get_position());
        const CameraToWorldMatrix c2w = utils::compute_camera_to_world_transform(pose.get_orientation_quaternion(), pose.get_position());
        if (event == 19 and s.draw(3) == 0)
        {
            c.label("reset");
            c.note("frame ", f, " reset");
            whole->reset();
            parts->each([](auto& map) { map.reset(); });
            for (Item& i: items)
            {
                i.idWhole = i.idParts = 0;
                i.hasDepth = false;
            }
            lastUpgraded.clear();
        }

        features::primitives::plane_container planes;
        std::vector<cv::Point2f> points;
        cv::Mat descriptors;
        cv::Mat_<float> depth = cv::Mat_<float>::zeros(k.h1, k.w1);
        features::keypoints::KeypointsWithIdStruct idsWhole, idsParts;
        std::vector<size_t> order(items.size()), pointItems, tracked;
        std::vector<vector2> trackedPixels;
        for (size_t i = 0; i < items.size(); ++i)
            order[i] = i;
        for (size_t i = items.size(); i > 1; --i)
            std::swap(order[i - 1], order[s.draw(i)]);
        std::map<size_t, bool> depths;
        for (const size_t i: order)
        {
            Item& item = items[i];
            const bool isPresent = s.unit() <= presence;
            const bool wasUpgraded = std::any_of(lastUpgraded.begin(), lastUpgraded.end(), [&](const auto& u) { return u.first == i; });
            if (not isPresent and not wasUpgraded)
                continue;
            const vector3 p = (w2c * vector4(item.world.x(), item.world.y(), item.world.z(), 1)).head<3>();
            if (item.isPlane)
            {
                const vector3 n = w2c.rotation() * item.direction;
                const Plane_Segment seg = segment_of(n, -n.dot(p));
                if (not seg.is_planar())
                    continue;
                const vector3 ux = n.unitOrthogonal(), uy = n.cross(ux).normalized();
                const double half = item.size * s.real(0.8, 1.2);
                const Poly square = {vector2(-half, -half), vector2(half, -half), vector2(half, half), vector2(-half, half)};
                planes.emplace_back(seg, CameraPolygon(to_boost(square), ux, uy, p));
                continue;
            }
            const vector2 pixel(k.fx1 * p.x() / p.z() + k.cx1, k.fy1 * p.y() / p.z() + k.cy1);
            item.hasDepth = item.hasDepth or s.unit() < item.depthChance;
            depths[i] = item.hasDepth;
            if (depths[i])
                for (int dy = -1; dy <= 1; ++dy)
                    for (int dx = -1; dx <= 1; ++dx)
                        depth(static_cast<int>(std::lround(pixel.y())) + dy, static_cast<int>(std::lround(pixel.x())) + dx) = static_cast<float>(p.z());
            if (item.idWhole and item.idParts and not wasUpgraded and s.boolean())
            {
                tracked.push_back(i);
                trackedPixels.push_back(pixel);
                continue;
            }
            pointItems.push_back(i);
            points.emplace_back(static_cast<float>(pixel.x()), static_cast<float>(pixel.y()));
            cv::Mat d = item.descriptor.clone();
            for (uint64_t flips = s.draw(4); flips > 0; --flips)
                d.at<uchar>(0, static_cast<int>(s.draw(32))) ^= static_cast<uchar>(1u << s.draw(8));
            if (descriptors.empty())
                descriptors = d;
            else
                cv::vconcat(descriptors, d, descriptors);
        }
        for (size_t i = 0; i < tracked.size(); ++i)
        {
            c.label("tracked points");
            pointItems.push_back(tracked[i]);
            idsWhole.add(items[tracked[i]].idWhole, trackedPixels[i].x(), trackedPixels[i].y());
            idsParts.add(items[tracked[i]].idParts, trackedPixels[i].x(), trackedPixels[i].y());
        }
        features::keypoints::Keypoint_Handler handlerWhole(static_cast<uint>(k.w1), static_cast<uint>(k.h1), 0.7), handlerParts(static_cast<uint>(k.w1), static_cast<uint>(k.h1), 0.7);
        {
            std::vector<cv::Point2f> copy = points;
            cv::Mat descriptorsCopy = descriptors.clone();
            handlerWhole.set(copy, descriptorsCopy, idsWhole, depth);
        }
        handlerParts.set(points, descriptors, idsParts, depth);
        const DetectedFeatureContainer detectedWhole(handlerWhole, features::lines::line_container(), planes), detectedParts(handlerParts, features::lines::line_container(), planes);

        // the matches are those of each map
        const match_container matchesWhole = whole->find_feature_matches(pose, detectedWhole);
        match_container matchesParts;
        parts->each([&](auto& map) {
            match_container mine;
            map.get_matches(detectedParts, w2c, static_cast<uint>(map.minimum_features_for_opti()), mine);
            for (const auto& m: mine)
                matchesParts.push_back(m);
        });
        const std::vector<Seen> a = seen(matchesWhole, w2c), b = seen(matchesParts, w2c);
        c.note("frame ", f, ": ", pointItems.size(), " points, ", planes.size(), " planes, matches ", text(a), " event ", event);
        hadMatches |= a.size() > 3;
        bool isSame = a.size() == b.size();
        for (size_t i = 0; isSame and i < a.size(); ++i)
        {
            isSame = a[i].type == b[i].type and a[i].detection == b[i].detection and a[i].distance.size() == b[i].distance.size();
            for (size_t j = 0; isSame and j < a[i].distance.size(); ++j)
                // the distance of a 2D point is to a line on the screen, with no direction when the camera did not move
                isSame = a[i].type == static_cast<int>(FeatureType::Point2d) or std::abs(a[i].distance[j] - b[i].distance[j]) <= 1e-2 * (1 + std::abs(b[i].distance[j]));
        }
        PBT_CHECK(c, "whole-matches", isSame, "frame ", f, ": the matches are ", text(a), " and each map finds ", text(b));
        // a match is made with the thing that was detected
        for (const auto& [index, coordinates]: lastUpgraded)
        {
            const auto at = std::find(pointItems.begin(), pointItems.end(), index);
            if (at == pointItems.end())
                continue;
            const auto detection = static_cast<size_t>(at - pointItems.begin());
            bool isFound = false;
            for (const auto& m: matchesWhole)
                isFound |= m->get_feature_type() == FeatureType::Point and m->_detectedFeatureId == detection;
            c.label("upgraded feature seen again");
            PBT_CHECK(c, "upgraded-match", isFound, "frame ", f, ": the upgraded feature of the detection ", detection, " is not matched: ", text(a));
        }
        lastUpgraded.clear();

        if (event < 3)
        {
            c.label("no tracking");
            whole->update_no_pose();
            parts->each([&](auto& map) { map.update_with_no_tracking(parts->writer); });
        }
        else if (event == 3)
        {
            c.label("invalid pose covariance");
            matrix66 wrong = poseVariance;
            const uint64_t how = s.draw(3);
            if (how == 0)
                wrong(s.draw(3), s.draw(3)) = std::numeric_limits<double>::quiet_NaN();
            else if (how == 1)
                wrong.block<3, 3>(0, 0) = -wrong.block<3, 3>(0, 0).eval();
            else
                wrong(0, 1) += 10;
            // refused, with no change to the maps
            bool isRefused = false;
            try
            {
                whole->update(utils::Pose(t, q, wrong), detectedWhole, matchesWhole);
            }
            catch (const std::invalid_argument&)
            {
                isRefused = true;
            }
            PBT_CHECK(c, "covariance-refused", isRefused, "frame ", f, ": update with the pose covariance ", show(wrong));
            isRefused = false;
            try
            {
                whole->add_all_features_to_map(wrong.block<3, 3>(0, 0), c2w, detectedWhole);
            }
            catch (const std::invalid_argument&)
            {
                isRefused = true;
            }
            PBT_CHECK(c, "covariance-refused", isRefused, "frame ", f, ": add_all_features_to_map with the pose covariance ", show(wrong));
        }
        else if (event == 4 or f == 0)
        {
            c.label("all features added");
            // a new start
            whole->reset();
            parts->each([&](auto& map) { map.reset(); });
            whole->add_all_features_to_map(poseVariance.block<3, 3>(0, 0), c2w, detectedWhole);
            parts->each([&](auto& map) { map.add_all_features_to_staged_map(poseVariance.block<3, 3>(0, 0), c2w, detectedParts); });
            const size_t deep = static_cast<size_t>(std::count_if(pointItems.begin(), pointItems.end() - static_cast<long>(tracked.size()), [&](size_t i) { return depths[i]; }));
            PBT_CHECK(c, "first-frame", parts->points.get_staged_map_size() == deep and parts->points2d.get_staged_map_size() == pointItems.size() - tracked.size() - deep and
                                                    parts->planes.get_staged_map_size() == planes.size(),
                          parts->points.get_staged_map_size(), " points, ", parts->points2d.get_staged_map_size(), " 2D points and ", parts->planes.get_staged_map_size(),
                          " planes are added, for ", deep, " ", pointItems.size() - deep, " and ", planes.size());
        }
        else
        {
            // outliers: the same detections
            match_container outliersWhole, outliersParts;
            if (event < 8)
            {
                std::set<std::pair<int, size_t>> chosen;
                // an outlier is added to the map again: only for a feature of the local map, matched before those that are added
                for (const Seen& m: a)
                    if (s.draw(3) == 0 and (m.type == static_cast<int>(FeatureType::Point)     ? items[pointItems[m.detection]].idParts != 0
                                            : m.type == static_cast<int>(FeatureType::Point2d) ? parts->points2d.get_staged_map_size() == 0 and not depths[pointItems[m.detection]]
                                                                                               : parts->planes.get_staged_map_size() == 0))
                        chosen.insert({m.type, m.detection});
                for (const auto& m: matchesWhole)
                    if (chosen.count({static_cast<int>(m->get_feature_type()), m->_detectedFeatureId}))
                        outliersWhole.push_back(m);
                for (const auto& m: matchesParts)
                    if (chosen.count({static_cast<int>(m->get_feature_type()), m->_detectedFeatureId}))
                        outliersParts.push_back(m);
                if (not chosen.empty())
                    c.label("outliers");
            }
            whole->update(pose, detectedWhole, outliersWhole);

            const matrix33 covariance = poseVariance.block<3, 3>(0, 0);
            parts->each([&](auto& map) { map.mark_outliers_as_unmatched(outliersParts); });
            parts->each([&](auto& map) {
                const matchIndexSet used = map.update_map(c2w, covariance, detectedParts, parts->writer);
                map.add_features_to_staged_map(covariance, c2w, detectedParts, used);
            });
            // upgrades: what leaves the map of 2D points arrives in the map of points
            PBT_CHECK(c, "upgrade-source", parts->planes.get_upgraded_features(c2w).empty() and parts->points.get_upgraded_features(c2w).empty(), "a plane or a point is upgraded");
            const size_t before2d = parts->points2d.size(), beforeLocal = parts->points.get_local_map_size(), beforeStaged = parts->points.get_staged_map_size(),
                         beforePlanes = parts->planes.size();
            const auto upgraded = parts->points2d.get_upgraded_features(c2w);
            PBT_CHECK(c, "upgrade-leaves", parts->points2d.size() + upgraded.size() == before2d, upgraded.size(), " features upgraded, ", before2d, " 2D points before and ",
                      parts->points2d.size(), " after");
            upgradedCount += upgraded.size();
            for (const auto& u: upgraded)
            {
                PBT_CHECK(c, "upgrade-type", u->get_type() == FeatureType::Point, "upgraded to ", static_cast<int>(u->get_type()));
                const auto* point = dynamic_cast<const UpgradedPoint2D*>(u.get());
                PBT_CHECK(c, "upgrade-type", point != nullptr, "not a point");
                const vector3 coordinates = point->_coordinates;
                PBT_CHECK(c, "upgrade-covariance", utils::is_covariance_valid(matrix33(point->_covariance)), show(matrix33(point->_covariance)));
                // the thing it is: on the same ray
                size_t best = items.size();
                double bestAngle = 10;
                for (size_t i = 0; i < items.size(); ++i)
                {
                    if (items[i].isPlane)
                        continue;
                    const double angle = std::acos(std::clamp((items[i].world - t).normalized().dot((coordinates - t).normalized()), -1.0, 1.0));
                    if (angle < bestAngle)
                    {
                        bestAngle = angle;
                        best = i;
                    }
                }
                const double error = (coordinates - items[best].world).norm(), range = (items[best].world - t).norm();
                c.note("upgrade of ", best, " error ", error, " range ", range);
                PBT_CHECK(c, "upgrade-place", error < 0.1 * range, "frame ", f, ": the point ", show(items[best].world.transpose()), " is upgraded at ", show(coordinates.transpose()));
                PBT_CHECK(c, "upgrade-descriptor", not point->_descriptor.empty() and cv::norm(point->_descriptor, items[best].descriptor, cv::NORM_HAMMING) <= 3,
                          "the descriptor is not that of the point ", best);
                lastUpgraded.emplace_back(best, coordinates);
                hadUpgrade = true;
            }
            PBT_CHECK(c, "upgrade-once", parts->points2d.get_upgraded_features(c2w).empty(), "the same features are upgraded twice");
            size_t added = parts->points2d.add_upgraded_features(upgraded);
            PBT_CHECK(c, "upgrade-2d", added == 0 and parts->points2d.size() + upgraded.size() == before2d, added, " features added to the 2D points");
            added = parts->planes.add_upgraded_features(upgraded);
            PBT_CHECK(c, "upgrade-plane", added == 0 and parts->planes.size() == beforePlanes, added, " features added to the planes");
            added = parts->points.add_upgraded_features(upgraded);
            PBT_CHECK(c, "upgrade-arrives", added == upgraded.size() and parts->points.get_local_map_size() == beforeLocal + added and parts->points.get_staged_map_size() == beforeStaged,
                      added, " of ", upgraded.size(), " upgraded features added, local points: ", beforeLocal, " then ", parts->points.get_local_map_size());
        }
        // what to track: a part of what the map of points tracks
        const TrackedFeaturesContainer trackWhole = whole->get_tracked_features(pose);
        TrackedFeaturesContainer trackParts;
        parts->each([&](auto& map) { map.get_tracked_features(w2c, trackParts, 0); });
        for (Item& i: items)
            i.idWhole = i.idParts = 0;
        std::set<size_t> ids;
        std::vector<char> isUsed(trackParts.trackedPoints->size(), false);
        for (size_t i = 0; i < trackWhole.trackedPoints->size(); ++i)
        {
            const auto p = trackWhole.trackedPoints->at(i);
            PBT_CHECK(c, "whole-tracked", ids.insert(p._id).second, "the feature ", p._id, " is tracked twice");
            bool isFound = false;
            for (size_t j = 0; not isFound and j < trackParts.trackedPoints->size(); ++j)
            {
                const auto r = trackParts.trackedPoints->at(j);
                if (isUsed[j] or std::hypot(r._point.x - p._point.x, r._point.y - p._point.y) > 0.1)
                    continue;
                isFound = isUsed[j] = true;
                for (Item& item: items)
                {
                    const vector3 v = (w2c * vector4(item.world.x(), item.world.y(), item.world.z(), 1)).head<3>();
                    if (not item.isPlane and std::hypot(k.fx1 * v.x() / v.z() + k.cx1 - p._point.x, k.fy1 * v.y() / v.z() + k.cy1 - p._point.y) < 20 and not item.idWhole)
                    {
                        item.idWhole = p._id;
                        item.idParts = r._id;
                    }
                }
            }
            PBT_CHECK(c, "whole-tracked", isFound, "frame ", f, ": the feature ", p._id, " is tracked at ", p._point.x, " ", p._point.y, ", no map does it");
        }
        // one out of ten is dropped at random
        const size_t possible = trackParts.trackedPoints->size();
        PBT_CHECK(c, "whole-tracked-count", possible < 12 or ids.size() * 4 >= possible, "frame ", f, ": ", ids.size(), " features tracked of ", possible);
        if (s.draw(20) == 0)
        {
            cv::Mat image = cv::Mat::zeros(k.h1, k.w1, CV_8UC3);
            whole->get_debug_image(pose, s.boolean(), image);
        }
    }
    if (hadUpgrade)
        c.label("upgrades");
    if (hadUpgrade and hadMatches)
        c.nontrivial();
    // the end of the program saves the same things
    parts->each([&](auto& map) { map.destroy(parts->writer); });
    parts.reset();
    whole.reset();
    const Saved a = saved("out.obj"), b = saved("parts.obj");
    for (const char* type: {"p", "f", "l"})
    {
        const size_t inWhole = a.elements.count(type) ? a.elements.at(type) : 0, inParts = b.elements.count(type) ? b.elements.at(type) : 0;
        PBT_CHECK(c, "whole-saved", inWhole == inParts, inWhole, " elements of type ", type, " saved instead of ", inParts);
    }
    // a rounding can change the simplification of the boundaries
    const auto check_saved = [&](const std::vector<vector3>& from, const std::vector<vector3>& to) {
        for (const vector3& v: from)
        {
            double best = std::numeric_limits<double>::infinity();
            for (const vector3& w: to)
                best = std::min(best, (w - v).norm());
            PBT_CHECK(c, "whole-saved", best <= 30 + 0.01 * v.norm(), "the vertex ", show(v.transpose()), " is saved, the closest of the other file is at ", best);
        }
    };
    check_saved(a.vertices, b.vertices);
    check_saved(b.vertices, a.vertices);
    std::remove("out.obj");
    std::remove("parts.obj");
}

PBT_MAIN((pbt::Property {.id = "P32",
                         .rule = "histories of up to 31 frames over points (seen with a depth always, never or from some frame on) and planes, for the whole map and its "
                                 "three parts; non-trivial: a 2D point was upgraded and more than three matches were made at once",
                         .setup = camera_setup,
                         .run = run,
                         .describeSetup = describe_camera}))
