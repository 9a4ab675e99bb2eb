// needs: src/coordinates/*.cpp src/utils/*.cpp src/parameters.cpp src/outputs/logger.cpp third_party/concave_fitting.cpp src/features/primitives/depth_map_transformation.cpp
#include "common.hpp"
#include "features/primitives/depth_map_transformation.hpp"
using namespace h;
using features::primitives::Depth_Map_Transformation;

static uint cellSize = 20;
static std::unique_ptr<Depth_Map_Transformation> transformation;

static void setup(Source& s)
{
    Camera c;
    const uint64_t mode = s.draw(4);
    const std::vector<std::pair<int, int>> sizes = {{40, 40}, {80, 60}, {60, 100}, {160, 120}};
    auto [w, hh] = s.pick(sizes);
    // some cells are not complete
    if (s.draw(3) == 0)
        w += static_cast<int>(s.draw(20));
    if (s.draw(3) == 0)
        hh += static_cast<int>(s.draw(20));
    c.w1 = c.w2 = w;
    c.h1 = c.h2 = hh;
    c.fx1 = c.fx2 = std::round(w * s.real(0.6, 1.4) * 8) / 8;
    c.fy1 = c.fy2 = std::round(w * s.real(0.6, 1.4) * 8) / 8;
    c.cx1 = c.cx2 = std::round(w * s.real(0.4, 0.6) * 8) / 8;
    c.cy1 = c.cy2 = std::round(hh * s.real(0.4, 0.6) * 8) / 8;
    if (mode & 1)
    {
        // another lens for the depth camera
        c.fx2 = std::round(w * s.real(0.6, 1.4) * 8) / 8;
        c.fy2 = std::round(w * s.real(0.6, 1.4) * 8) / 8;
        c.cx2 = std::round(w * s.real(0.4, 0.6) * 8) / 8;
        c.cy2 = std::round(hh * s.real(0.4, 0.6) * 8) / 8;
    }
    if (mode & 2)
    {
        c.tx = s.sym(100);
        c.ty = s.sym(100);
        c.tz = s.draw(3) == 0 ? -s.real(100, 1000) : s.sym(50);
        c.rx = s.sym(0.3);
        c.ry = s.sym(0.3);
        c.rz = s.sym(0.3);
    }
    cellSize = s.draw(2) ? 20 : 10;
    load_camera(c);
    transformation = std::make_unique<Depth_Map_Transformation>(w, hh, cellSize);
}
static std::string describe() { return camera().str() + cat(" cell ", cellSize); }

static void run(Source& s, Ctx& c)
{
    const Camera& cam = camera();
    const int w = cam.w1, hh = cam.h1;
    const uint64_t mode = s.draw(4);
    const double base = s.real(100, 5000), slopeX = s.sym(3), slopeY = s.sym(3), holes = s.draw(2) ? s.real(0, 0.9) : 0;
    cv::Mat_<float> depth(hh, w);
    const uint64_t hashSeed = s.draw(1 << 30);
    auto noise = [&](int x, int y) {
        uint64_t z = hashSeed + 0x9E3779B97F4A7C15ULL * static_cast<uint64_t>(y * 4096 + x + 1);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
        return static_cast<double>((z ^ (z >> 31)) >> 11) / 9007199254740992.0;
    };
    int valid = 0;
    for (int y = 0; y < hh; ++y)
        for (int x = 0; x < w; ++x)
        {
            double d = base + slopeX * x + slopeY * y;
            if (mode == 1)
                d = 50 + 5900 * noise(x, y); // anything
            else if (mode == 2)
                d = std::round(d);
            else if (mode == 3)
                d = noise(x + 1000, y) < 0.02 ? base : 0; // isolated points
            if (holes > 0 and noise(x, y + 3000) < holes)
                d = 0;
            if (holes > 0 and noise(x, y + 2000) < 0.01)
                d = -d; // no sensor should do it
            if (std::abs(d) < 40)
                d = 0;
            depth(y, x) = static_cast<float>(d);
            valid += depth(y, x) > 0;
        }
    c.note("mode ", mode, " base ", base, " slopes ", slopeX, " ", slopeY, " holes ", holes, " valid ", valid);
    const cv::Mat_<float> original = depth.clone();

    // ---- rectification
    cv::Mat_<float> rectified;
    PBT_CHECK(c, "rectify", transformation->rectify_depth(depth, rectified), "refused");
    PBT_CHECK(c, "size", rectified.rows == hh and rectified.cols == w, rectified.cols, "x", rectified.rows);
    PBT_CHECK(c, "input", cv::norm(depth, original, cv::NORM_INF) == 0, "the input was changed");
    const matrix44 t = Parameters::get_camera_2_to_camera_1_transformation();
    PBT_CHECK(c, "offset", near(vector3(t.block<3, 1>(0, 3)), vector3(cam.tx, cam.ty, cam.tz), 1e-6, 1e-6), "");
    // each pixel: the depths that certainly / maybe project to it
    std::vector<std::vector<double>> sure(static_cast<size_t>(w * hh)), maybe(static_cast<size_t>(w * hh));
    int projected = 0;
    for (int y = 0; y < hh; ++y)
        for (int x = 0; x < w; ++x)
        {
            const double z = original(y, x);
            if (z <= 0)
                continue;
            const vector3 p((x - cam.cx2) / cam.fx2 * z, (y - cam.cy2) / cam.fy2 * z, z);
            const vector3 q = t.block<3, 3>(0, 0) * p + t.block<3, 1>(0, 3);
            if (q.z() < -1e-3)
                continue;
            if (q.z() < 1)
            {
                // almost in the image plane: too sensitive to rounding, accept it anywhere
                for (auto& m: maybe)
                    m.push_back(q.z());
                continue;
            }
            const double u = cam.fx1 * q.x() / q.z() + cam.cx1, v = cam.fy1 * q.y() / q.z() + cam.cy1;
            if (std::abs(u) > 1e5 or std::abs(v) > 1e5)
                continue;
            const double eps = 1e-3;
            for (int j = static_cast<int>(std::floor(v + 0.5 - eps)); j <= static_cast<int>(std::floor(v + 0.5 + eps)); ++j)
                for (int i = static_cast<int>(std::floor(u + 0.5 - eps)); i <= static_cast<int>(std::floor(u + 0.5 + eps)); ++i)
                    if (i >= 0 and j >= 0 and i < w and j < hh)
                        maybe[static_cast<size_t>(j * w + i)].push_back(q.z());
            const double fu = u + 0.5 - std::floor(u + 0.5), fv = v + 0.5 - std::floor(v + 0.5);
            const int i = static_cast<int>(std::floor(u + 0.5)), j = static_cast<int>(std::floor(v + 0.5));
            if (fu > eps and fu < 1 - eps and fv > eps and fv < 1 - eps and i >= 0 and j >= 0 and i < w and j < hh)
            {
                sure[static_cast<size_t>(j * w + i)].push_back(q.z());
                ++projected;
            }
        }
    if (projected > 0)
        c.nontrivial();
    for (int j = 0; j < hh; ++j)
        for (int i = 0; i < w; ++i)
        {
            const size_t k = static_cast<size_t>(j * w + i);
            const double got = rectified(j, i);
            if (maybe[k].empty())
                PBT_CHECK(c, "no-depth", got == 0, "pixel (", i, ", ", j, ") has the depth ", got, ", but nothing is projected there");
            else if (not sure[k].empty() or got != 0)
                PBT_CHECK(c, "depth", std::ranges::any_of(maybe[k], [&](double z) { return pbt::close(z, got, 1e-5, 1e-3); }), "pixel (", i, ", ", j, ") has the depth ", got,
                          " expected ", maybe[k].front(), " (", maybe[k].size(), " candidates)");
        }
    const bool same = cam.fx1 == cam.fx2 and cam.fy1 == cam.fy2 and cam.cx1 == cam.cx2 and cam.cy1 == cam.cy2 and t.isIdentity(1e-12);
    if (same)
    {
        c.label("aligned cameras");
        for (int y = 0; y < hh; ++y)
            for (int x = 0; x < w; ++x)
                PBT_CHECK(c, "identity", pbt::close(rectified(y, x), std::max(0.0f, original(y, x)), 1e-6, 0), "pixel (", x, ", ", y, ") was ", original(y, x), " now ", rectified(y, x));
    }
    else
        c.label("different cameras");

    // ---- organized cloud
    matrixf cloud;
    PBT_CHECK(c, "cloud", transformation->get_organized_cloud_array(depth, cloud) and cloud.rows() == w * hh and cloud.cols() == 3, cloud.rows());
    const int cells = w / static_cast<int>(cellSize), cs = static_cast<int>(cellSize);
    const int cellRows = hh / cs;
    for (int y = 0; y < hh; ++y)
        for (int x = 0; x < w; ++x)
        {
            if (x / cs >= cells or y / cs >= cellRows)
                continue; // not in a complete cell
            // points of a cell are contiguous, cells and pixels are in row order
            const long id = ((y / cs) * cells + x / cs) * cs * cs + (y % cs) * cs + x % cs;
            const double z = original(y, x);
            const vector3 expected = z > 0 ? vector3((x - cam.cx1) / cam.fx1 * z, (y - cam.cy1) / cam.fy1 * z, z) : vector3::Zero().eval();
            const vector3 got = cloud.row(id).transpose().cast<double>();
            PBT_CHECK(c, "cloud", near(got, expected, 1e-5, 1e-6), "pixel (", x, ", ", y, ") got ", show(got.transpose()), " expected ", show(expected.transpose()));
        }
}

PBT_MAIN((pbt::Property {.id = "P15",
                         .rule = "depth images (slopes, noise, isolated points, holes) with aligned cameras, other depth intrinsics and camera offsets; "
                                 "non-trivial: at least one depth is projected in the colour image",
                         .setup = setup,
                         .run = run,
                         .describeSetup = describe}))
