// needs: src/coordinates/*.cpp src/utils/*.cpp src/parameters.cpp src/outputs/logger.cpp src/features/keypoints/*.cpp third_party/concave_fitting.cpp
// scheduled: src/features/keypoints/keypoint_detection.cpp
// link: -Wl,--wrap=pthread_mutex_lock -Wl,--wrap=pthread_mutex_unlock -Wl,--wrap=_ZN2cv13parallel_for_ERKNS_5RangeERKNS_16ParallelLoopBodyEd
#include "common.hpp"
#include "features/keypoints/keypoint_detection.hpp"
#include "vsched.hpp"
#include <map>
#include <opencv2/imgproc.hpp>
using namespace h;
using namespace features::keypoints;

static void setup(Source& s)
{
    Camera c;
    const std::vector<std::pair<int, int>> sizes = {{320, 240}, {240, 180}, {400, 300}, {323, 251}};
    const auto [w, hh] = s.pick(sizes);
    c.w1 = c.w2 = w;
    c.h1 = c.h2 = hh;
    c.fx1 = c.fx2 = c.fy1 = c.fy2 = w;
    c.cx1 = c.cx2 = w / 2;
    c.cy1 = c.cy2 = hh / 2;
    load_camera(c);
}

static uint64_t mix(uint64_t z)
{
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
    return z ^ (z >> 31);
}
static double hashed(uint64_t seed, int x, int y)
{
    return static_cast<double>(mix(seed + 0x9E3779B97F4A7C15ULL * static_cast<uint64_t>(y * 4096 + x + 1)) >> 11) / 9007199254740992.0;
}

struct Found
{
    cv::Point2f p;
    double depth;
    std::vector<uchar> descriptor;
    bool operator<(const Found& o) const { return std::tie(p.x, p.y, depth, descriptor) < std::tie(o.p.x, o.p.y, o.depth, o.descriptor); }
};
static std::vector<Found> content(const Keypoint_Handler& k)
{
    std::vector<Found> res;
    for (uint i = 0; i < k.get_keypoint_count(); ++i)
    {
        const ScreenCoordinate p = k.get_keypoint(i);
        Found f{cv::Point2f(static_cast<float>(p.x()), static_cast<float>(p.y())), p.z(), {}};
        if (k.is_descriptor_computed(i))
            k.get_descriptor(i).copyTo(f.descriptor);
        res.push_back(f);
    }
    return res;
}

static void run(Source& s, Ctx& c)
{
    const Camera& cam = camera();
    const int w = cam.w1, hh = cam.h1;
    vsched::state().active = false;
    vsched::state().switches = 0;
    // ---- a scene: rectangles and smooth noise, on a canvas greater than the image
    const int margin = 30;
    const uint64_t seed = s.draw(1 << 30);
    cv::Mat_<uchar> canvas(hh + 2 * margin, w + 2 * margin, uchar(128));
    const bool isFlat = s.draw(12) == 0;
    const double density = s.draw(4) == 0 ? s.real(0, 1) : 1;
    if (not isFlat)
    {
        const int step = 6 + static_cast<int>(s.draw(12));
        cv::Mat_<uchar> coarse(canvas.rows / step + 2, canvas.cols / step + 2);
        for (int y = 0; y < coarse.rows; ++y)
            for (int x = 0; x < coarse.cols; ++x)
                coarse(y, x) = static_cast<uchar>(60 + 130 * hashed(seed, x, y));
        cv::Mat big;
        cv::resize(coarse, big, cv::Size(coarse.cols * step, coarse.rows * step), 0, 0, cv::INTER_LINEAR);
        big(cv::Rect(0, 0, canvas.cols, canvas.rows)).copyTo(canvas);
        const int boxes = static_cast<int>(density * canvas.rows * canvas.cols / 350);
        for (int i = 0; i < boxes; ++i)
        {
            const int x = static_cast<int>(hashed(seed + 1, i, 0) * canvas.cols), y = static_cast<int>(hashed(seed + 1, i, 1) * canvas.rows);
            const int bw = 5 + static_cast<int>(hashed(seed + 1, i, 2) * 18), bh = 5 + static_cast<int>(hashed(seed + 1, i, 3) * 18);
            const cv::Rect r = cv::Rect(x, y, bw, bh) & cv::Rect(0, 0, canvas.cols, canvas.rows);
            if (r.area() > 0)
                canvas(r).setTo(static_cast<uchar>(20 + 215 * hashed(seed + 1, i, 4)));
        }
        cv::GaussianBlur(canvas, canvas, cv::Size(3, 3), 0.7);
    }
    const cv::Mat first = canvas(cv::Rect(margin, margin, w, hh)).clone();
    cv::Mat_<float> depth(hh, w);
    for (int y = 0; y < hh; ++y)
        for (int x = 0; x < w; ++x)
            depth(y, x) = hashed(seed + 5, x / 10, y / 10) < 0.2 ? 0.0f : static_cast<float>(500 + 3 * x + 7 * y);
    c.note("density ", density, isFlat ? " flat" : "");

    // ---- detection
    const auto check_frame = [&](const char* what, const cv::Mat& image, const std::vector<Found>& found, size_t newCount, const std::vector<cv::Point2f>& tracked)
    {
        auto brief = cv::xfeatures2d::BriefDescriptorExtractor::create();
        for (size_t i = 0; i < found.size(); ++i)
        {
            const Found& f = found[i];
            PBT_CHECK(c, "in-image", f.p.x >= 0 and f.p.y >= 0 and f.p.x < w and f.p.y < hh, what, ": point ", i, " at ", f.p.x, ",", f.p.y);
            const bool isBorder = not(f.p.x >= 1 and f.p.y >= 1 and f.p.x < w - 1 and f.p.y < hh - 1);
            const double expected = isBorder ? 0 : depth(static_cast<int>(std::round(f.p.y)), static_cast<int>(std::round(f.p.x)));
            PBT_CHECK(c, "depth", f.depth == expected, what, ": the depth of ", f.p.x, ",", f.p.y, " is ", f.depth, " instead of ", expected);
            PBT_CHECK(c, "descriptor", (i < newCount) == not f.descriptor.empty(), what, ": point ", i, " of ", newCount, " new ones: descriptor of size ", f.descriptor.size());
            if (i < newCount)
            {
                std::vector<cv::KeyPoint> kp = {cv::KeyPoint(f.p, 1)};
                cv::Mat d;
                brief->compute(image, kp, d);
                PBT_CHECK(c, "descriptor",
                          d.rows == 1 and static_cast<size_t>(d.cols) == f.descriptor.size() and std::equal(f.descriptor.begin(), f.descriptor.end(), d.ptr<uchar>(0)), what,
                          ": the descriptor of point ", i, " is not the one of its position");
                for (const cv::Point2f& t : tracked)
                    PBT_CHECK(c, "mask", cv::norm(t - f.p) > 15 - 1.5 - 5, what, ": new point ", f.p.x, ",", f.p.y, " at ", cv::norm(t - f.p), " px of a tracked one");
            }
        }
        // the limit: eleven by cell, and the ones with the same response as the last
        PBT_CHECK(c, "count", newCount <= 99 + 45, what, ": ", newCount, " new points");
    };
    Key_Point_Extraction extraction;
    const KeypointsWithIdStruct none;
    const Keypoint_Handler handler = extraction.compute_keypoints(first, depth, none, s.boolean());
    const std::vector<Found> found = content(handler);
    c.note(found.size(), " points in the first image");
    check_frame("first", first, found, found.size(), {});
    if (isFlat)
        PBT_CHECK(c, "flat", found.empty(), found.size(), " points in an image of one color");
    else if (density == 1)
        PBT_CHECK(c, "missed", found.size() > 20, found.size(), " points");
    // each point is a place with contrast
    for (const Found& f : found)
    {
        const cv::Rect r = cv::Rect(static_cast<int>(f.p.x) - 9, static_cast<int>(f.p.y) - 9, 19, 19) & cv::Rect(0, 0, w, hh);
        double lo, hi;
        cv::minMaxLoc(first(r), &lo, &hi);
        PBT_CHECK(c, "contrast", hi - lo > 5, "nothing is visible around ", f.p.x, ",", f.p.y);
    }

    // ---- the same, under a schedule
    {
        auto& st = vsched::state();
        st.rng = s.draw(1ull << 40);
        st.threads = 2 + static_cast<unsigned>(s.draw(4));
        const std::vector<uint64_t> runs = {10, 3, 30, 100};
        st.meanRun = s.pick(runs);
        st.active = true;
        Key_Point_Extraction other;
        std::vector<Found> scheduled = content(other.compute_keypoints(first, depth, none, true)), sorted = found;
        st.active = false;
        c.note("schedule ", st.rng, " on ", st.threads, " threads, runs of ", st.meanRun, ": ", st.switches, " preemptions");
        std::sort(scheduled.begin(), scheduled.end());
        std::sort(sorted.begin(), sorted.end());
        PBT_CHECK(c, "schedule", scheduled.size() == sorted.size(), scheduled.size(), " points instead of ", sorted.size());
        for (size_t i = 0; i < sorted.size(); ++i)
            PBT_CHECK(c, "schedule", not(scheduled[i] < sorted[i]) and not(sorted[i] < scheduled[i]), "the points depend of the schedule");
    }

    // ---- the next images: all moved of some pixels
    int ox = 0, oy = 0;
    cv::Mat before = first;
    std::vector<Found> known = found;
    const int frames = 1 + static_cast<int>(s.draw(3));
    for (int frame = 0; frame < frames; ++frame)
    {
        const int dx = static_cast<int>(s.integer(-7, 7)), dy = static_cast<int>(s.integer(-7, 7));
        ox += dx;
        oy += dy;
        const cv::Mat second = canvas(cv::Rect(margin + ox, margin + oy, w, hh)).clone();
        KeypointsWithIdStruct last;
        std::map<size_t, cv::Point2f> previous;
        const bool isMany = s.draw(4) == 0, isNone = s.draw(4) == 0;
        size_t id = 1 + s.draw(100);
        for (const Found& f : known)
            if (not isNone and s.draw(5) != 0)
            {
                last.add(id, f.p);
                previous[id] = f.p;
                id += 1 + s.draw(3);
            }
        if (isMany and not isNone)
            for (int y = 12; y < hh; y += 21)
                for (int x = 12; x < w; x += 21)
                {
                    last.add(id, cv::Point2f(static_cast<float>(x), static_cast<float>(y)));
                    previous[id] = cv::Point2f(static_cast<float>(x), static_cast<float>(y));
                    ++id;
                }
        const bool force = s.boolean();
        const Keypoint_Handler next = extraction.compute_keypoints(second, depth, last, force);
        const std::vector<Found> nextFound = content(next);
        std::vector<cv::Point2f> tracked;
        std::map<int, size_t> indexToId;
        int inside = 0, kept = 0, right = 0;
        for (const auto& [pid, p] : previous)
        {
            const int index = next.get_tracking_match_index(pid);
            const cv::Point2f expected = p - cv::Point2f(static_cast<float>(dx), static_cast<float>(dy));
            // the ones found by the detector, far from the border
            const bool isInside = expected.x > 45 and expected.y > 45 and expected.x < w - 46 and expected.y < hh - 46 and
                                  std::any_of(known.begin(), known.end(), [&, q = p](const Found& f) { return f.p == q; });
            inside += isInside;
            if (index == INVALID_MATCH_INDEX)
                continue;
            PBT_CHECK(c, "tracked", index >= 0 and static_cast<size_t>(index) < nextFound.size(), "index ", index, " of ", nextFound.size());
            PBT_CHECK(c, "tracked", indexToId.emplace(index, pid).second, "two ids for the same point");
            const cv::Point2f got = nextFound[static_cast<size_t>(index)].p;
            tracked.push_back(got);
            if (isInside)
            {
                ++kept;
                right += cv::norm(got - expected) < 1;
            }
        }
        const size_t newCount = nextFound.size() - tracked.size();
        c.note("moved ", dx, ",", dy, ": ", last.size(), " points to track, ", tracked.size(), " found, ", newCount, " new. ", inside, " inside: ", kept, " tracked ", right,
               " at their place");
        check_frame("second", second, nextFound, newCount, tracked);
        // an id that was not in the last points is never tracked
        PBT_CHECK(c, "unknown", next.get_tracking_match_index(id + 7) == INVALID_MATCH_INDEX, "an unknown id is tracked");
        if (inside > 4)
        {
            c.label("tracked points");
            PBT_CHECK(c, "lost", kept * 10 >= inside * 8, kept, " tracked of ", inside);
            PBT_CHECK(c, "place", right * 10 >= kept * 8, right, " at the right place of ", kept);
            c.nontrivial();
        }
        // enough points: no detection, except if it is requested
        if (tracked.size() >= 100 and not force)
        {
            c.label("no new detection");
            PBT_CHECK(c, "no-detection", newCount == 0, newCount, " new points");
        }
        // full cells are not searched again
        const int cw = w / 3, ch = hh / 3;
        std::map<int, int> already, fresh;
        for (const cv::Point2f& p : tracked)
            if (p.x < 3 * cw and p.y < 3 * ch and std::fmod(p.x, cw) > 1 and std::fmod(p.y, ch) > 1 and std::fmod(p.x, cw) < cw - 1 and std::fmod(p.y, ch) < ch - 1)
                already[static_cast<int>(p.y) / ch * 3 + static_cast<int>(p.x) / cw]++;
        for (size_t i = 0; i < newCount; ++i)
        {
            // far enough of the border of the cell
            const cv::Point2f p = nextFound[i].p;
            const double mx = std::fmod(p.x, cw), my = std::fmod(p.y, ch);
            if (p.x < 3 * cw and p.y < 3 * ch and mx > 5 and my > 5 and mx < cw - 5 and my < ch - 5)
                fresh[static_cast<int>(p.y) / ch * 3 + static_cast<int>(p.x) / cw]++;
        }
        for (const auto& [cell, count] : fresh)
            PBT_CHECK(c, "cell", already[cell] < 11, "cell ", cell, ": ", count, " new points for ", already[cell], " tracked ones");
        // the images before the last one do not matter
        if (frame + 1 == frames)
        {
            Key_Point_Extraction fresh2;
            (void)fresh2.compute_keypoints(before, depth, none, false);
            std::vector<Found> again = content(fresh2.compute_keypoints(second, depth, last, force)), sorted = nextFound;
            std::sort(again.begin(), again.end());
            std::sort(sorted.begin(), sorted.end());
            PBT_CHECK(c, "history", again.size() == sorted.size(), again.size(), " points instead of ", sorted.size());
            for (size_t i = 0; i < sorted.size(); ++i)
                PBT_CHECK(c, "history", not(again[i] < sorted[i]) and not(sorted[i] < again[i]), "the points depend of the previous images");
        }
        known.assign(nextFound.begin(), nextFound.end());
        before = second;
    }
}

PBT_MAIN((pbt::Property{
    .id = "P31",
    .rule = "textured, sparse or flat images and sequences of one to three copies moved of up to 7 pixels, with the detected points and up to 280 others to track, the detection "
            "also run under random schedules; non-trivial: more than four points to track far from the borders",
    .setup = setup,
    .run = run,
    .describeSetup = describe_camera}))
