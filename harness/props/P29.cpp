// needs: all
#include "common.hpp"
#include "rgbd_slam.hpp"
#include "utils/covariances.hpp"
#include "features/primitives/depth_map_transformation.hpp"
#include <opencv2/imgproc.hpp>
using namespace h;

static void setup(Source& s)
{
    Camera c;
    const std::vector<std::pair<int, int>> sizes = {{320, 240}, {360, 280}, {400, 300}};
    const auto [w, hh] = s.pick(sizes);
    c.w1 = c.w2 = w;
    c.h1 = c.h2 = hh;
    c.fx1 = c.fx2 = std::round(w * s.real(0.75, 0.95) * 8) / 8;
    c.fy1 = c.fy2 = std::round(c.fx1 * s.real(0.95, 1.05) * 8) / 8;
    c.cx1 = c.cx2 = std::round(w * s.real(0.45, 0.55) * 8) / 8;
    c.cy1 = c.cy2 = std::round(hh * s.real(0.45, 0.55) * 8) / 8;
    // the depth sensor is not at the place of the camera
    if (s.boolean())
    {
        c.tx = std::round(s.sym(40));
        c.ty = std::round(s.sym(20));
        c.fx2 = std::round(c.fx1 * s.real(0.95, 1.05) * 8) / 8;
    }
    load_camera(c);
}

// a room with textured walls
struct Room
{
    struct Wall
    {
        vector3 n, u, v, o; // visible side: n.(p - o) > 0
        cv::Mat_<uchar> texture;
    };
    std::vector<Wall> walls;
    static constexpr double texel = 8; // millimeters

    // random blocks of several sizes
    static cv::Mat_<uchar> make_texture(uint64_t seed, int w, int hh)
    {
        cv::RNG rng(seed * 7919 + 17);
        cv::Mat_<uchar> m(hh, w, uchar(128));
        for (int i = 0; i < w * hh / 500; ++i)
        {
            const int sx = rng.uniform(4, 40), sy = rng.uniform(4, 40);
            cv::rectangle(m, cv::Rect(rng.uniform(-10, w), rng.uniform(-10, hh), sx, sy), cv::Scalar(rng.uniform(10, 245)), -1);
        }
        cv::GaussianBlur(m, m, cv::Size(3, 3), 0.8);
        return m;
    }
    // a wall given by a point and two directions
    void add(uint64_t seed, const vector3& o, const vector3& u, const vector3& v, double width, double height)
    {
        Wall w;
        w.u = u;
        w.v = v;
        w.n = u.cross(v);
        w.o = o - u * width / 2 - v * height / 2;
        w.texture = make_texture(seed, static_cast<int>(width / texel) + 2, static_cast<int>(height / texel) + 2);
        walls.push_back(w);
    }
    // a pose is a motion in the axes of the camera, followed by the change of axes
    void render(const quaternion& q, const vector3& pose, cv::Mat& rgb, cv::Mat_<float>& depth) const
    {
        const Camera& k = camera();
        const matrix33 r = reference_axes() * q.toRotationMatrix();
        const vector3 t = reference_axes() * pose;
        rgb.create(k.h1, k.w1, CV_8UC3);
        depth.create(k.h1, k.w1);
        for (int y = 0; y < k.h1; ++y)
            for (int x = 0; x < k.w1; ++x)
            {
                const vector3 ray = r * vector3((x - k.cx1) / k.fx1, (y - k.cy1) / k.fy1, 1);
                double best = std::numeric_limits<double>::infinity();
                const Wall* wall = nullptr;
                for (const Wall& w: walls)
                {
                    const double f = w.n.dot(ray);
                    if (std::abs(f) < 1e-9)
                        continue;
                    const double z = w.n.dot(w.o - t) / f;
                    if (z > 0 and z < best)
                    {
                        best = z;
                        wall = &w;
                    }
                }
                const vector3 p = t + ray * best - wall->o;
                const double a = std::clamp(p.dot(wall->u) / texel, 0.0, wall->texture.cols - 1.001), b = std::clamp(p.dot(wall->v) / texel, 0.0, wall->texture.rows - 1.001);
                const int ia = static_cast<int>(a), ib = static_cast<int>(b);
                const double fa = a - ia, fb = b - ib;
                const auto& m = wall->texture;
                const double g = (m(ib, ia) * (1 - fa) + m(ib, ia + 1) * fa) * (1 - fb) + (m(ib + 1, ia) * (1 - fa) + m(ib + 1, ia + 1) * fa) * fb;
                rgb.at<cv::Vec3b>(y, x) = cv::Vec3b::all(static_cast<uchar>(g + 0.5));
                depth(y, x) = static_cast<float>(best);
            }
    }
    double distance(const vector3& p) const
    {
        double best = std::numeric_limits<double>::infinity();
        for (const Wall& w: walls)
            best = std::min(best, std::abs(w.n.dot(p - w.o)));
        return best;
    }
};


static std::vector<vector3> saved_vertices(const std::string& name)
{
    std::vector<vector3> res;
    std::ifstream f(name);
    std::string line;
    while (std::getline(f, line))
    {
        std::istringstream l(line);
        std::string key;
        vector3 p;
        if (l >> key >> p.x() >> p.y() >> p.z() and key == "v")
            res.push_back(p);
    }
    return res;
}

// part of the pixels under the top band that are those of the image, or those of the image under a red veil
static std::pair<double, double> veil(const cv::Mat& rgb, const cv::Mat& image)
{
    size_t same = 0, red = 0, count = 0;
    for (int y = rgb.rows / 8; y < rgb.rows; ++y)
        for (int x = 0; x < rgb.cols; ++x, ++count)
        {
            const auto a = rgb.at<cv::Vec3b>(y, x), b = image.at<cv::Vec3b>(y, x);
            same += a == b;
            red += std::abs(0.8 * a[0] + 1 - b[0]) < 2 and std::abs(0.8 * a[1] + 1 - b[1]) < 2 and std::abs(0.8 * a[2] + 52 - b[2]) < 2;
        }
    return {static_cast<double>(same) / count, static_cast<double>(red) / count};
}

// What the camera does
struct Sequence
{
    std::vector<bool> isBlank;
    vector3 position, step;
    quaternion orientation, turn;
    double distance;
    matrix33 tilt;
    uint64_t seed;
    bool isDisplayed;
};

// tracks a camera in front of a wall. Returns the reason of a bad tracking, if any
static std::string track(Ctx& c, const Sequence& path)
{
    const Camera& k = camera();
    std::remove("out.obj");
    const matrix33 r = reference_axes() * path.orientation.toRotationMatrix();
    Room room;
    room.add(path.seed, reference_axes() * path.position + r * vector3(0, 0, path.distance), r * path.tilt.col(0), r * path.tilt.col(1), 4500, 4500);
    std::string bad;
    // longest sequence of frames that show the wall
    size_t seen = 0, current = 0;
    {
        RGBD_SLAM slam(utils::Pose(path.position, path.orientation), static_cast<uint>(k.w1), static_cast<uint>(k.h1));
        h::sequential();
        vector3 realT = path.position, last = path.position;
        quaternion realQ = path.orientation, lastQ = path.orientation;
        // tracking is lost until the second frame, then when more than three frames in a row could not be tracked
        bool isLost = true;
        size_t failures = 0;
        matrix66 lastVariance = matrix66::Zero();
        // the camera only moves if it is followed: the motion between two frames is unknown when the tracking fails
        bool isFollowed = true;
        bool wasBlind = false;
        size_t missed = 0;
        for (size_t i = 0; i < path.isBlank.size(); ++i)
        {
            if (i > 0 and isFollowed and not path.isBlank[i])
            {
                realT += path.step;
                realQ = (realQ * path.turn).normalized();
            }
            cv::Mat rgb;
            cv::Mat_<float> depth;
            if (path.isBlank[i])
            {
                rgb = cv::Mat(k.h1, k.w1, CV_8UC3, cv::Scalar::all(90));
                depth = cv::Mat_<float>::zeros(k.h1, k.w1);
                current = 0;
            }
            else
            {
                room.render(realQ, realT, rgb, depth);
                seen = std::max(seen, ++current);
            }
            const cv::Mat rgbCopy = rgb.clone();
            const cv::Mat_<float> depthCopy = depth.clone();
            const utils::Pose p = slam.track(rgb, depth);
            const vector3 t = p.get_position();
            const quaternion q = p.get_orientation_quaternion();
            PBT_CHECK(c, "pose", t.allFinite() and q.coeffs().allFinite() and std::abs(q.norm() - 1) < 1e-6, "frame ", i, ": ", show(t.transpose()), " ", show(q));
            PBT_CHECK(c, "pose-variance", utils::is_covariance_valid(p.get_pose_variance()), "frame ", i);
            PBT_CHECK(c, "input", cv::countNonZero(rgb.reshape(1) != rgbCopy.reshape(1)) == 0 and cv::countNonZero(depth != depthCopy) == 0, "frame ", i, ": the images changed");
            if (i == 0)
                PBT_CHECK(c, "start", t == path.position and q.angularDistance(path.orientation) < 1e-6, "the first pose is ", show(t.transpose()), " ", show(q));
            if (path.isBlank[i])
                PBT_CHECK(c, "blind", (t - last).norm() < 1e-9 and q.angularDistance(lastQ) < 1e-6, "frame ", i, ": the pose moves to ", show(t.transpose()), " without any feature");
            if (i > 0)
            {
                // a new estimation always changes the variance
                const bool isTracked = t != last or p.get_pose_variance() != lastVariance;
                failures = isTracked ? 0 : failures + 1;
                isLost = failures > 3;
                // motions that are not followed are drifts
                if (path.isBlank[i])
                    isFollowed = false;
                else if (isTracked)
                    isFollowed = true;
                missed = path.isBlank[i] or isTracked ? 0 : missed + 1;
                if (bad.empty() and missed > 8)
                    bad = cat("frame ", i, ": the tracking does not start again");
            }
            if (failures > 3)
                c.label("lost");
            last = t;
            lastQ = q;
            lastVariance = p.get_pose_variance();
            const double dt = (t - realT).norm(), dr = q.angularDistance(realQ);
            // the features added after a blind period are at the place where the tracking was lost: less precise
            wasBlind = wasBlind or path.isBlank[i];
            if (bad.empty() and not path.isBlank[i] and (wasBlind ? dt > 300 or dr > 0.3 : dt > 30 or dr > 0.03))
                bad = cat("frame ", i, ": ", dt, " mm and ", dr, " rad from the true pose");
            if (path.isDisplayed)
            {
                const cv::Mat image = slam.get_debug_image(p, rgb, 0.1, true);
                PBT_CHECK(c, "debug-image", image.size() == rgb.size() and image.type() == rgb.type() and cv::countNonZero(rgb.reshape(1) != rgbCopy.reshape(1)) == 0, "frame ", i);
                const auto [same, red] = veil(rgb, image);
                PBT_CHECK(c, "lost", isLost ? red > 0.5 and same < 0.5 : same > 0.5 and red < 0.5, "frame ", i, ", the tracking is ", isLost ? "" : "not ", "lost: ", same * 100, "% of the pixels are those of the image, ",
                          red * 100, "% are red");
            }
            if (i == 0 and path.isDisplayed)
            {
                features::primitives::Depth_Map_Transformation reference(static_cast<uint>(k.w1), static_cast<uint>(k.h1), parameters::detection::depthMapPatchSize_px);
                cv::Mat_<float> wanted, rectified = depth.clone();
                PBT_CHECK(c, "rectify", reference.rectify_depth(depth, wanted), "cannot rectify");
                slam.rectify_depth(rectified);
                PBT_CHECK(c, "rectify", rectified.size() == wanted.size() and cv::countNonZero(rectified != wanted) == 0, "the depth is not the one seen from the camera");
                PBT_CHECK(c, "input", cv::countNonZero(depth != depthCopy) == 0, "the depth changed");
            }
        }
        if (path.isDisplayed)
            slam.show_statistics(0.1);
    }
    const auto saved = saved_vertices("out.obj");
    std::vector<double> distances;
    for (const vector3& v: saved)
        distances.push_back(room.distance(v));
    std::sort(distances.begin(), distances.end());
    if (bad.empty() and seen >= 7)
    {
        if (distances.size() < 16)
            return cat(distances.size(), " points are saved");
        if (distances[distances.size() / 2] > 5)
            return cat("the saved points are not on the wall, the median distance is ", distances[distances.size() / 2]);
    }
    return bad;
}

// The frames where the camera is blind
static std::vector<bool> gen_blanks(Source& s)
{
    std::vector<bool> isBlank(2 + s.draw(9), false);
    for (size_t i = s.draw(3) == 0 ? 1 + s.draw(2) : 0; i > 0; --i)
    {
        isBlank.insert(isBlank.end(), 1 + s.draw(i == 1 ? 14 : 6), true);
        isBlank.insert(isBlank.end(), 1 + s.draw(i == 1 ? 14 : 7), false);
    }
    return isBlank;
}

// the camera moves regularly in front of the wall, and may be blind for some frames
static Sequence gen_sequence(Source& s, const quaternion& start, const std::vector<bool>& isBlank, bool isBlind)
{
    Sequence res;
    res.isBlank = isBlank;
    res.position = gen_vector(s, 3000);
    res.orientation = start;
    const double speed = s.real(isBlind ? 8 : 0, 18), turn = s.real(0, 0.01);
    res.step = gen_direction(s) * speed;
    res.turn = quaternion(Eigen::AngleAxisd(turn, gen_direction(s)));
    res.distance = s.real(1100, 1700);
    res.tilt = gen_small_quaternion(s, 0.35).toRotationMatrix();
    res.isDisplayed = s.draw(isBlind ? 2 : 4) == 0;
    res.seed = s.draw(100000);
    return res;
}

static void run(Source& s, Ctx& c)
{
    const quaternion start = gen_quaternion(s);
    const auto isBlank = gen_blanks(s);
    const bool isBlind = std::find(isBlank.begin(), isBlank.end(), true) != isBlank.end();
    if (isBlind)
        c.label("blind frames");
    // the precision depends on the points found on the wall and on their distribution: about a sequence over twenty drifts, but not many sequences in a row
    std::string bad;
    for (int attempt = 0; attempt < 8; ++attempt)
    {
        Sequence path = gen_sequence(s, start, isBlank, isBlind);
        path.seed += static_cast<uint64_t>(attempt) * 100003;
        std::string blanks;
        for (const bool b: isBlank)
            blanks += b ? 'b' : '.';
        c.note(isBlank.size(), " frames ", blanks, " (b: blank) from ", show(path.position.transpose()), " ", show(path.orientation), " step ", show(path.step.transpose()), " ", show(path.turn), " wall at ",
               path.distance, " normal in the camera ", show(path.tilt.col(2).transpose()), " texture ", path.seed);
        if (attempt == 0 and isBlank.size() >= 5 and (path.step.norm() > 0.5 or path.turn.vec().norm() > 0.00025))
            c.nontrivial();
        bad = track(c, path);
        if (bad.empty())
            break;
        c.label(cat("not tracked in ", attempt + 1, " sequences"));
    }
    PBT_CHECK(c, "tracking", bad.empty(), "none of the sequences is tracked, the last one: ", bad);
}

PBT_MAIN((pbt::Property {.id = "P29",
                         .rule = "image sequences of 2 to 45 rendered frames of a textured wall at 1.1 to 1.7 m, tilted up to 0.35 rad, from any start pose, with steps of at most 18 mm and "
                                 "10 mrad, and up to 20 blank frames in two periods; non-trivial: at least five frames and a motion",
                         .setup = setup,
                         .run = run,
                         .cpuLimitSeconds = 400,
                         .describeSetup = describe_camera}))
