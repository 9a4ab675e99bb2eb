// needs: src/coordinates/*.cpp src/utils/*.cpp src/parameters.cpp src/outputs/logger.cpp src/features/primitives/*.cpp third_party/concave_fitting.cpp
#include "geometry2d.hpp"
#include "features/primitives/depth_map_transformation.hpp"
#include "features/primitives/primitive_detection.hpp"
using namespace h;
using namespace features::primitives;

static std::unique_ptr<Depth_Map_Transformation> transformation;
static std::unique_ptr<Primitive_Detection> veteran; // sees all the scenes of the process
static void setup(Source& s)
{
    Camera c;
    const std::vector<std::pair<int, int>> sizes = {{320, 240}, {400, 300}, {250, 210}};
    const auto [w, hh] = s.pick(sizes);
    c.w1 = c.w2 = w;
    c.h1 = c.h2 = hh;
    c.fx1 = c.fx2 = std::round(w * s.real(0.7, 1.2) * 8) / 8;
    c.fy1 = c.fy2 = std::round(w * s.real(0.7, 1.2) * 8) / 8;
    c.cx1 = c.cx2 = std::round(w * s.real(0.4, 0.6) * 8) / 8;
    c.cy1 = c.cy2 = std::round(hh * s.real(0.4, 0.6) * 8) / 8;
    load_camera(c);
    transformation = std::make_unique<Depth_Map_Transformation>(w, hh, 20);
    veteran = std::make_unique<Primitive_Detection>(w, hh);
}

struct Wall
{
    vector3 n;
    double d; // n.p + d = 0, n toward the camera
};

struct Cell
{
    bool planar = false;
    int pure = -1; // wall of all its pixels
    int home = -1; // closest wall
    vector3 n = vector3::Zero();
    std::set<int> walls;
};

// one cylinder in an empty space
static void cylinder_scene(Source& s, Ctx& c)
{
    const Camera& cam = camera();
    const int w = cam.w1, hh = cam.h1;
    const double turn = s.draw(3) == 0 ? M_PI / 2 * static_cast<double>(s.draw(2)) : s.real(0, M_PI), tilt = s.draw(2) ? 0 : s.sym(0.3);
    const vector3 axis(cos(turn) * cos(tilt), sin(turn) * cos(tilt), sin(tilt));
    const double z = s.real(900, 2000), half = 0.5 * std::min(w / cam.fx1, hh / cam.fy1) * z;
    const double radius = s.real(0.7, 1.1) * half;
    const vector3 center = vector3((w / 2 - cam.cx1) / cam.fx1, (hh / 2 - cam.cy1) / cam.fy1, 1) * z;
    const bool integers = s.draw(2);
    c.label("cylinder scene");
    c.note("cylinder axis ", show(axis.transpose()), " z ", z, " radius ", radius, " integers ", integers);
    cv::Mat_<float> depth(hh, w);
    for (int y = 0; y < hh; ++y)
        for (int x = 0; x < w; ++x)
        {
            const vector3 ray((x - cam.cx1) / cam.fx1, (y - cam.cy1) / cam.fy1, 1);
            const vector3 d = ray - axis * axis.dot(ray), o = center - axis * axis.dot(center);
            const double a = d.squaredNorm(), b = d.dot(o), k = o.squaredNorm() - radius * radius;
            double v = b * b > a * k ? (b - std::sqrt(b * b - a * k)) / a : 0;
            if (integers)
                v = std::round(v);
            depth(y, x) = v < 50 or v > 5900 ? 0.0f : static_cast<float>(v);
        }
    matrixf cloud;
    PBT_CHECK(c, "cloud", transformation->get_organized_cloud_array(depth, cloud), "");
    plane_container planes;
    cylinder_container cylinders;
    srand(1);
    pbt::entropy() = 1;
    utils::Random::get_random_engine().seed(static_cast<uint>(s.draw(1 << 30)));
    veteran->find_primitives(cloud, depth, planes, cylinders);
    c.note("found ", planes.size(), " planes and ", cylinders.size(), " cylinders");
    // small enough cells on the cylinder: the normals of two neighbors are close
    if (20 * (z - radius) / std::min(cam.fx1, cam.fy1) < 0.17 * radius)
        PBT_CHECK(c, "missed", not cylinders.empty() or not planes.empty(), "nothing is found in an image of a cylinder");
    for (const Cylinder& o: cylinders)
    {
        c.note("radius ", o._radius, " axis ", show(o._normal.transpose()));
        PBT_CHECK(c, "cylinder", std::isfinite(o._radius) and o._radius > 0 and std::abs(o._normal.norm() - 1) < 1e-6, "radius ", o._radius);
        c.nontrivial();
        c.label("cylinder");
        PBT_CHECK(c, "cylinder-axis", std::abs(o._normal.dot(axis)) > cos(10 * M_PI / 180), "the axis is ", acos(std::abs(o._normal.dot(axis))) * 180 / M_PI, " degrees away");
        PBT_CHECK(c, "cylinder-radius", std::abs(o._radius / radius - 1) < 0.2, "got ", o._radius, " expected ", radius);
    }
}

static void run(Source& s, Ctx& c)
{
    if (s.draw(6) == 0)
        return cylinder_scene(s, c);
    const Camera& cam = camera();
    const int w = cam.w1, hh = cam.h1;
    const uint randomSeed = static_cast<uint>(s.draw(1 << 30));
    // ---- the room: the camera is inside of the walls
    const uint64_t kind = s.draw(10);
    const int wallCount = kind < 3 ? 1 : kind < 6 ? 2 : kind < 9 ? 3 : 0;
    std::vector<Wall> walls;
    for (int i = 0; i < wallCount; ++i)
    {
        const double tilt = s.draw(4) == 0 ? 0 : s.real(0, wallCount == 1 ? 1.0 : 1.5), turn = s.draw(3) == 0 ? M_PI / 2 * static_cast<double>(s.draw(4)) : s.real(0, 2 * M_PI);
        const vector3 n(sin(tilt) * cos(turn), sin(tilt) * sin(turn), -cos(tilt));
        bool ok = true;
        for (const Wall& o: walls)
            ok = ok and std::abs(o.n.dot(n)) < cos(50 * M_PI / 180);
        const double d = s.draw(4) == 0 ? std::round(s.real(4, 20)) * 100 : s.real(400, 3000);
        if (ok)
            walls.push_back({n, d});
    }
    const double noise = s.draw(3) == 0 ? s.real(0, 0.4) : 0;
    const bool integers = s.draw(2);
    const double holes = s.draw(4) == 0 ? s.real(0, 0.15) : 0;
    const uint64_t hashSeed = s.draw(1 << 30);
    auto hash = [&](int x, int y, uint64_t salt) {
        uint64_t z = hashSeed + 0x9E3779B97F4A7C15ULL * (static_cast<uint64_t>(y * 4096 + x + 1) + salt * 77777777);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
        return static_cast<double>((z ^ (z >> 31)) >> 11) / 9007199254740992.0;
    };
    const auto quantization = [](double z) { return std::max(-0.53 + 0.74 * z / 1000 + 2.73 * z * z / 1e6, 0.5); };
    cv::Mat_<float> depth(hh, w);
    cv::Mat_<int> label(hh, w);
    for (int y = 0; y < hh; ++y)
        for (int x = 0; x < w; ++x)
        {
            const vector3 ray((x - cam.cx1) / cam.fx1, (y - cam.cy1) / cam.fy1, 1);
            double z = 0;
            int who = -1;
            for (size_t i = 0; i < walls.size(); ++i)
            {
                const double den = -walls[i].n.dot(ray);
                if (den > 1e-6 and (who < 0 or walls[i].d / den < z))
                {
                    z = walls[i].d / den;
                    who = static_cast<int>(i);
                }
            }
            z += noise * quantization(z) * (2 * hash(x, y, 1) - 1);
            if (integers)
                z = std::round(z);
            if (z < 50 or z > 5900)
            {
                z = 0;
                who = -1;
            }
            if (holes > 0 and hash(x, y, 2) < holes)
                z = 0;
            depth(y, x) = static_cast<float>(z);
            label(y, x) = who;
        }
    c.note("walls ", walls.size(), " noise ", noise, " integers ", integers, " holes ", holes);
    for (const Wall& o: walls)
        c.note("n ", show(o.n.transpose()), " d ", o.d);

    matrixf cloud;
    PBT_CHECK(c, "cloud", transformation->get_organized_cloud_array(depth, cloud), "");
    plane_container planes, again;
    cylinder_container cylinders, cylindersAgain;
    // the nearest neighbor search of the boundaries uses random numbers
    srand(1);
    pbt::entropy() = 1;
    utils::Random::get_random_engine().seed(randomSeed);
    {
        Primitive_Detection fresh(w, hh);
        fresh.find_primitives(cloud, depth, planes, cylinders);
    }
    srand(1);
    pbt::entropy() = 1;
    utils::Random::get_random_engine().seed(randomSeed);
    veteran->find_primitives(cloud, depth, again, cylindersAgain);
    c.note("found ", planes.size(), " planes and ", cylinders.size(), " cylinders");
    for (const Plane& p: planes)
        c.note("plane ", show(p.get_normal().transpose()), " d ", p.get_d(), " area ", p.get_boundary_polygon().get_area());

    // ---- the cells
    const int cols = w / 20, rows = hh / 20;
    std::vector<Cell> cells(static_cast<size_t>(cols * rows));
    std::vector<int> count(walls.size(), 0);
    bool clean = true;
    Plane_Segment::set_static_members(20, 400);
    for (int cy = 0; cy < rows; ++cy)
        for (int cx = 0; cx < cols; ++cx)
        {
            Cell& cell = cells[static_cast<size_t>(cy * cols + cx)];
            Plane_Segment seg;
            seg.init_plane_segment(cloud, static_cast<uint>(cy * cols + cx));
            cell.planar = seg.is_planar();
            for (int y = cy * 20; y < cy * 20 + 20; ++y)
                for (int x = cx * 20; x < cx * 20 + 20; ++x)
                    if (label(y, x) >= 0)
                        cell.walls.insert(label(y, x));
            if (cell.planar)
            {
                cell.n = seg.get_normal();
                if (cell.walls.size() == 1)
                {
                    cell.pure = *cell.walls.begin();
                    count[static_cast<size_t>(cell.pure)]++;
                }
                double best = 0;
                for (const int i: cell.walls)
                    if (cell.n.dot(walls[static_cast<size_t>(i)].n) > best)
                    {
                        best = cell.n.dot(walls[static_cast<size_t>(i)].n);
                        cell.home = i;
                    }
                clean = clean and best > cos(8 * M_PI / 180);
            }
        }
    for (size_t i = 0; i < walls.size(); ++i)
    {
        const auto mixed = std::ranges::count_if(cells, [&](const Cell& o) { return o.home == static_cast<int>(i) and o.pure < 0; });
        clean = clean and 4 * mixed <= count[i];
    }
    for (int cy = 0; cy < rows; ++cy)
    {
        std::string line;
        for (int cx = 0; cx < cols; ++cx)
        {
            const Cell& cell = cells[static_cast<size_t>(cy * cols + cx)];
            line += cell.walls.empty() ? ' ' : not cell.planar ? '.' : cell.pure >= 0 ? static_cast<char>('a' + cell.pure) : '+';
        }
        c.note(line);
    }
    // the pixels out of the complete cells are never used
    const double limit = 0.02 * cols * rows;

    // connected parts of the walls
    std::vector<int> components(walls.size(), 0), biggest(walls.size(), 0);
    for (const bool pure: {true, false})
    {
    std::vector<int> part(cells.size(), -1);
    const auto wall_of = [&](size_t k) { return pure ? cells[k].pure : cells[k].home; };
    for (size_t first = 0; first < cells.size(); ++first)
    {
        if (part[first] >= 0 or wall_of(first) < 0)
            continue;
        const int wall = wall_of(first);
        const int id = pure ? 0 : components[static_cast<size_t>(wall)]++;
        std::vector<size_t> todo = {first};
        part[first] = id;
        int size = 0;
        while (not todo.empty())
        {
            const int k = static_cast<int>(todo.back()), x = k % cols, y = k / cols;
            todo.pop_back();
            ++size;
            for (const auto& [dx, dy]: {std::pair(1, 0), std::pair(-1, 0), std::pair(0, 1), std::pair(0, -1)})
            {
                if (x + dx < 0 or y + dy < 0 or x + dx >= cols or y + dy >= rows)
                    continue;
                const size_t next = static_cast<size_t>((y + dy) * cols + x + dx);
                if (part[next] < 0 and wall_of(next) == wall)
                {
                    part[next] = id;
                    todo.push_back(next);
                }
            }
        }
        if (pure)
            biggest[static_cast<size_t>(wall)] = std::max(biggest[static_cast<size_t>(wall)], size);
    }
    }

    // at least 3 cells in both directions: a thinner wall has no boundary
    std::vector<bool> wide(walls.size(), false);
    for (int y = 1; y + 1 < rows; ++y)
        for (int x = 1; x + 1 < cols; ++x)
        {
            const int wall = cells[static_cast<size_t>(y * cols + x)].pure;
            bool all = wall >= 0;
            for (int k = 0; k < 9 and all; ++k)
                all = cells[static_cast<size_t>((y + k / 3 - 1) * cols + x + k % 3 - 1)].pure == wall;
            if (all)
                wide[static_cast<size_t>(wall)] = true;
        }

    // ---- every result
    PBT_CHECK(c, "no-memory", planes.size() == again.size() and cylinders.size() == cylindersAgain.size(), "the detector finds ", again.size(), " planes after other scenes, ", planes.size(),
              " when it is new");
    for (size_t i = 0; i < planes.size(); ++i)
        PBT_CHECK(c, "no-memory", near(planes[i].get_parametrization().get_parametrization(), again[i].get_parametrization().get_parametrization(), 1e-9, 1e-9) and
                                          pbt::close(planes[i].get_boundary_polygon().get_area(), again[i].get_boundary_polygon().get_area(), 0.5, 1e-9),
                  show(planes[i].get_parametrization().get_parametrization().transpose()), " ", planes[i].get_boundary_polygon().get_area(), " then ",
                  show(again[i].get_parametrization().get_parametrization().transpose()), " ", again[i].get_boundary_polygon().get_area());
    for (const Cylinder& o: cylinders)
        PBT_CHECK(c, "cylinder", std::isfinite(o._radius) and o._radius > 0 and std::abs(o._normal.norm() - 1) < 1e-6, "radius ", o._radius);
    if (walls.empty())
    {
        c.nontrivial();
        PBT_CHECK(c, "nothing", planes.empty() and cylinders.empty(), "found ", planes.size(), " planes in an empty image");
        return;
    }
    for (const Plane& p: planes)
    {
        std::string reason;
        const CameraPolygon polygon = p.get_boundary_polygon();
        PBT_CHECK(c, "valid", std::abs(p.get_normal().norm() - 1) < 1e-9 and p.get_d() >= 0 and polygon.is_valid(reason) and polygon.get_area() > 0, "normal ", show(p.get_normal().transpose()), " d ",
                  p.get_d(), " ", reason);
        PBT_CHECK(c, "polygon-frame", near(polygon.get_normal(), p.get_normal(), 0, 1e-6) and near(vector3(polygon.get_center()), vector3(p.get_center()), 1e-6, 1e-3), "");
        for (const ScreenCoordinate& v: polygon.get_screen_points())
            PBT_CHECK(c, "polygon-in-image", v.x() > -20 and v.y() > -20 and v.x() < cols * 20 + 20 and v.y() < rows * 20 + 20 and v.z() > 0, "a vertex is projected at ", show(v.transpose()));
    }
    if (not clean)
        return;
    c.label("clean");
    std::vector<int> matches(walls.size(), 0), precise(walls.size(), 0);
    for (const Plane& p: planes)
    {
        int best = -1;
        for (size_t i = 0; i < walls.size(); ++i)
            if (p.get_normal().dot(walls[i].n) > cos(10 * M_PI / 180) and std::abs(p.get_d() - walls[i].d) < 0.2 * walls[i].d + 50)
            {
                best = static_cast<int>(i);
                if (p.get_normal().dot(walls[i].n) > cos(3 * M_PI / 180) and std::abs(p.get_d() - walls[i].d) < 0.03 * walls[i].d + 20)
                    precise[i]++;
            }
        PBT_CHECK(c, "true-plane", best >= 0, "a plane was found where there is none: n ", show(p.get_normal().transpose()), " d ", p.get_d());
        matches[static_cast<size_t>(best)]++;
        // all the vertices are close to cells of this wall
        for (const ScreenCoordinate& v: p.get_boundary_polygon().get_screen_points())
        {
            bool found = false;
            const int px = static_cast<int>(v.x()), py = static_cast<int>(v.y());
            for (int y = std::max(0, py - 22); y < std::min(hh, py + 23) and not found; y += 4)
                for (int x = std::max(0, px - 22); x < std::min(w, px + 23) and not found; x += 4)
                    found = label(y, x) == best;
            PBT_CHECK(c, "polygon-on-wall", found, "a vertex is projected at ", show(v.transpose()), ", out of its wall");
        }
    }
    PBT_CHECK(c, "no-cylinder", cylinders.empty() or walls.size() > 1 or noise > 0 or holes > 0, "a cylinder was found on a wall");
    for (size_t i = 0; i < walls.size(); ++i)
    {
        c.note("wall ", i, " cells ", count[i], " matches ", matches[i]);
        PBT_CHECK(c, "once", matches[i] <= std::max(1, components[i]), "a wall of ", components[i], " parts was found ", matches[i], " times");
        if (not wide[i] or biggest[i] < std::max(limit, 9.0))
            continue;
        c.nontrivial();
        c.label("wall");
        PBT_CHECK(c, "found", precise[i] >= 1, "a wall of ", biggest[i], " planar cells was not found");
    }
}

PBT_MAIN((pbt::Property {.id = "P17",
                         .rule = "depth images of rooms of 0 to 3 walls around the camera, exact, rounded or noisy, with holes; non-trivial: a wall covers at "
                                 "least 2 percent of the cells and no cell between two walls is mistaken for a plane, or the image is empty",
                         .setup = setup,
                         .run = run}))
