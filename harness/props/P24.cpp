// needs: src/coordinates/*.cpp src/utils/*.cpp src/parameters.cpp src/outputs/logger.cpp third_party/concave_fitting.cpp src/features/keypoints/keypoint_handler.cpp
#include "common.hpp"
#include "features/keypoints/keypoint_handler.hpp"
using namespace h;
using namespace rgbd_slam::features::keypoints;

static int hamming(const cv::Mat& a, const cv::Mat& b)
{
    int d = 0;
    for (int i = 0; i < a.cols; ++i)
        d += __builtin_popcount(static_cast<unsigned>(a.at<uchar>(0, i) ^ b.at<uchar>(0, i)));
    return d;
}

// a descriptor at some bits of a base one
static cv::Mat gen_descriptor(Source& s, const cv::Mat& base)
{
    cv::Mat d = base.clone();
    const uint64_t flips = s.draw(s.boolean() ? 6 : 60);
    for (uint64_t i = 0; i < flips; ++i)
    {
        const uint64_t bit = s.draw(static_cast<uint64_t>(base.cols) * 8);
        d.at<uchar>(0, static_cast<int>(bit / 8)) ^= static_cast<uchar>(1u << (bit % 8));
    }
    return d;
}

static void run(Source& s, Ctx& c)
{
    const std::vector<std::pair<int, int>> sizes = {{640, 480}, {480, 640}, {320, 240}, {200, 200}, {31, 620}, {1280, 64}, {93, 93}};
    const auto [w, hh] = s.pick(sizes);
    c.label(w >= hh ? "landscape" : "portrait");
    const double ratio = s.boolean() ? 0.7 : s.real(0.2, 1.2);
    Keypoint_Handler handler(static_cast<uint>(w), static_cast<uint>(hh), ratio);
    cv::Mat base(1, 32, CV_8UC1);
    for (int i = 0; i < 32; ++i)
        base.at<uchar>(0, i) = static_cast<uchar>(s.draw(256));

    const int frames = static_cast<int>(1 + s.draw(3));
    for (int f = 0; f < frames; ++f)
    {
        // depth image: the depth tells the pixel
        cv::Mat_<float> depth(hh, w);
        for (int y = 0; y < hh; ++y)
            for (int x = 0; x < w; ++x)
                depth(y, x) = static_cast<float>(1 + (x * 7 + y * 13 + f * 5) % 4000);
        const auto gen_point = [&](const cv::Point2f& near, bool isNear) {
            double x, y;
            if (isNear)
            {
                x = near.x + s.sym(75);
                y = near.y + s.sym(75);
            }
            else
            {
                x = s.real(0, w - 1);
                y = s.real(0, hh - 1);
            }
            return cv::Point2f(static_cast<float>(std::clamp<double>(x, 0, w - 1)), static_cast<float>(std::clamp<double>(y, 0, hh - 1)));
        };
        const int n = s.draw(8) ? static_cast<int>(s.draw(25)) : 0;
        const int tracked = static_cast<int>(s.draw(8));
        std::vector<cv::Point2f> points;
        cv::Mat descriptors;
        cv::Point2f center(0, 0);
        for (int i = 0; i < n; ++i)
        {
            const cv::Point2f p = gen_point(center, i > 0 and s.draw(4) != 0);
            if (i == 0 or s.draw(10) == 0)
                center = p;
            points.push_back(p);
            const cv::Mat d = gen_descriptor(s, base);
            if (descriptors.empty())
                descriptors = d.clone();
            else
                cv::vconcat(descriptors, d, descriptors);
            c.note("point ", i, " ", p.x, " ", p.y);
        }
        KeypointsWithIdStruct withIds;
        std::map<size_t, int> ids;
        for (int i = 0; i < tracked; ++i)
        {
            size_t id = 1 + s.draw(50);
            while (ids.count(id))
                ++id;
            ids[id] = n + i;
            const cv::Point2f p = gen_point(center, s.boolean() and n > 0);
            withIds.add(id, p);
        }
        const std::vector<cv::Point2f> given = points;
        handler.set(points, descriptors, withIds, depth);
        const int all = n + tracked;
        PBT_CHECK(c, "count", handler.get_keypoint_count() == static_cast<size_t>(all) and handler.size() == static_cast<size_t>(all), handler.size(), " of ", all);
        for (int i = 0; i < all; ++i)
        {
            const cv::Point2f p = i < n ? given[i] : withIds.at(static_cast<size_t>(i - n))._point;
            const ScreenCoordinate got = handler.get_keypoint(static_cast<uint>(i));
            PBT_CHECK(c, "coordinates", pbt::close(got.x(), p.x, 1e-6, 1e-5) and pbt::close(got.y(), p.y, 1e-6, 1e-5), "point ", i, " ", show(got));
            const double fx = std::abs(p.x - std::floor(p.x) - 0.5), fy = std::abs(p.y - std::floor(p.y) - 0.5);
            if (fx > 1e-3 and fy > 1e-3)
            {
                const bool isIn = p.x >= 1 and p.y >= 1 and p.x < w - 1 and p.y < hh - 1;
                const double expected = isIn ? depth(static_cast<int>(std::lround(p.y)), static_cast<int>(std::lround(p.x))) : 0.0;
                PBT_CHECK(c, "depth", got.z() == expected, "point ", i, " at ", p.x, " ", p.y, " depth ", got.z(), " instead of ", expected);
            }
            PBT_CHECK(c, "descriptor", handler.is_descriptor_computed(static_cast<uint>(i)) == (i < n), "point ", i);
            if (i < n)
                PBT_CHECK(c, "descriptor", hamming(handler.get_descriptor(static_cast<uint>(i)), descriptors.row(i)) == 0, "point ", i);
            const auto at = handler.at(static_cast<size_t>(i));
            PBT_CHECK(c, "at", near(at._coordinates, got, 0, 1e-9) and at._descriptor.empty() == (i >= n), "point ", i);
        }
        vectorb matched = vectorb::Zero(all);
        for (int i = 0; i < all; ++i)
            matched[i] = s.draw(5) == 0;
        // optical flow ids
        for (size_t id = 0; id < 60; ++id)
        {
            const int expected = ids.count(id) ? ids[id] : INVALID_MATCH_INDEX;
            PBT_CHECK(c, "tracking", handler.get_tracking_match_index(id) == expected, "id ", id, " gives ", handler.get_tracking_match_index(id), " instead of ", expected);
            const int unmatched = (expected >= 0 and matched[expected]) ? INVALID_MATCH_INDEX : expected;
            PBT_CHECK(c, "tracking-matched", handler.get_tracking_match_index(id, matched) == unmatched, "id ", id, " gives ", handler.get_tracking_match_index(id, matched), " instead of ",
                      unmatched);
        }
        // descriptor matching against an exhaustive search
        const int queries = static_cast<int>(1 + s.draw(8));
        for (int q = 0; q < queries; ++q)
        {
            double x = s.real(-80, w + 80), y = s.real(-80, hh + 80);
            if (n > 0 and s.draw(4) != 0)
            {
                const cv::Point2f p = given[s.draw(given.size())];
                x = p.x + s.sym(50);
                y = p.y + s.sym(50);
            }
            const double radius = s.boolean() ? 30 : 60;
            const cv::Mat d = gen_descriptor(s, base);
            bool isAmbiguous = false;
            std::vector<std::pair<int, int>> candidates;
            for (int i = 0; i < n; ++i)
            {
                const double distance = std::hypot(given[i].x - x, given[i].y - y);
                if (std::abs(distance - radius) < 1e-3)
                    isAmbiguous = true;
                if (distance <= radius and not matched[i])
                    candidates.emplace_back(hamming(d, descriptors.row(i)), i);
            }
            if (isAmbiguous)
                continue;
            std::sort(candidates.begin(), candidates.end());
            std::set<size_t> expected;
            if (candidates.size() == 1)
                expected.insert(static_cast<size_t>(candidates[0].second));
            else if (candidates.size() > 1)
            {
                const double limit = ratio * candidates[1].first;
                if (std::abs(candidates[0].first - limit) < 1e-3 and candidates[0].first > 0)
                    continue;
                // several best candidates: any of them is right
                if (candidates[0].first == candidates[1].first and candidates[0].first < limit)
                    continue;
                if (candidates[0].first < limit)
                    expected.insert(static_cast<size_t>(candidates[0].second));
            }
            const auto got = handler.get_match_indexes(ScreenCoordinate2D(x, y), d, matched, radius);
            if (candidates.size() > 1 and not expected.empty())
                c.nontrivial();
            if (candidates.size() > 1 and expected.empty())
                c.label("ambiguous match refused");
            if (radius > 30 and not expected.empty())
                c.label("wide search");
            const std::set<size_t> gotSet(got.begin(), got.end());
            std::string list;
            for (const size_t i: gotSet)
                list += cat(i, " ");
            PBT_CHECK(c, "match", gotSet == expected, "at ", x, " ", y, " in ", radius, " px, image ", w, "x", hh, ": got (", list, ") instead of ",
                      expected.empty() ? std::string("nothing") : cat(*expected.begin()), " among ", candidates.size(), " candidates");
        }
    }
}

PBT_MAIN((pbt::Property {.id = "P24",
                         .rule = "images of any shape, up to 25 detected and 8 tracked keypoints (grouped), one to three frames with the same handler, "
                                 "queries inside and around the image; non-trivial: a query has several candidates and one is the match",
                         .run = run}))
