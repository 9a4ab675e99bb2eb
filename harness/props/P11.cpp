// needs: src/coordinates/*.cpp src/utils/*.cpp src/parameters.cpp src/outputs/logger.cpp third_party/concave_fitting.cpp
#include "geometry2d.hpp"
using namespace h;

static void run(Source& s, Ctx& c)
{
    // seed of the randomized kd-trees
    pbt::entropy() = s.draw(100000);
    srand(static_cast<unsigned>(1 + s.draw(1000)));
    const double size = s.logreal(50, 4000);
    const uint64_t kind = s.draw(5);
    Poly pts;
    double minimumProportion = 0;
    if (kind == 0)
    {
        // scattered points in a rectangle
        c.label("dense scatter");
        const int n = static_cast<int>(50 + s.draw(200));
        for (int i = 0; i < n; ++i)
            pts.emplace_back(s.sym(size), s.sym(size * 0.7));
        minimumProportion = 0.1;
    }
    else if (kind == 1)
    {
        // the contour of a convex shape, in any order: what the plane detection gives
        c.label("convex contour");
        const int n = static_cast<int>(20 + s.draw(60));
        const double rx = size, ry = size * s.real(0.4, 1), rot = s.real(0, M_PI);
        for (int i = 0; i < n; ++i)
        {
            const double a = 2 * M_PI * (i + s.real(0, 0.3)) / n;
            const vector2 v(rx * cos(a), ry * sin(a));
            pts.emplace_back(cos(rot) * v.x() - sin(rot) * v.y(), sin(rot) * v.x() + cos(rot) * v.y());
        }
        for (size_t i = pts.size(); i > 1; --i)
            std::swap(pts[i - 1], pts[s.draw(i)]);
        minimumProportion = 0.7;
    }
    else if (kind == 2)
    {
        c.label("grid");
        const int a = static_cast<int>(3 + s.draw(12)), b = static_cast<int>(3 + s.draw(12));
        const double cell = size / std::max(a, b), aspect = s.real(0.8, 1), jitter = s.draw(2) * 0.1 * cell;
        for (int i = 0; i < a; ++i)
            for (int j = 0; j < b; ++j)
                pts.emplace_back(cell * i + s.sym(jitter), cell * aspect * j + s.sym(jitter));
        minimumProportion = 0.1;
    }
    else if (kind == 3)
    {
        c.label("few points");
        const int n = static_cast<int>(3 + s.draw(10));
        for (int i = 0; i < n; ++i)
            pts.emplace_back(s.sym(size), s.sym(size));
    }
    else
    {
        c.label("degenerated");
        const int n = static_cast<int>(3 + s.draw(10));
        for (int i = 0; i < n; ++i)
        {
            if (i > 0 and s.draw(3) == 0)
                pts.push_back(pts[s.draw(pts.size())]); // duplicate
            else if (s.draw(4) == 0)
                pts.emplace_back(s.sym(size), s.sym(size));
            else
            {
                const double t = static_cast<double>(s.integer(-5, 5)); // aligned
                pts.emplace_back(t * size / 5, t * size / 10);
            }
        }
    }
    const Poly hull = convex_hull(pts);
    const double hullArea = hull.size() < 3 ? 0 : poly_area(hull);
    const bool flat = hullArea < 1e-3 * size * size;
    const double tol = 1e-6 * size;
    c.note(pts.size(), " points, hull area ", hullArea, ": ", show(pts).substr(0, 600));

    // ---- convex hull
    const Poly convex = from_boost(utils::Polygon::compute_convex_hull(pts));
    if (not flat)
    {
        PBT_CHECK(c, "convex-area", pbt::close(poly_area(convex), hullArea, 1e-9, 1e-9), "got ", poly_area(convex), " expected ", hullArea);
        for (const vector2& p: pts)
            PBT_CHECK(c, "convex-encloses", point_inside(p, convex) or boundary_distance(p, convex) <= tol, "a point is outside of the convex hull");
    }
    // ---- concave hull
    Poly concave = from_boost(utils::Polygon::compute_concave_hull(pts));
    for (const vector2& v: concave)
        PBT_CHECK(c, "concave-vertices", std::ranges::any_of(pts, [&](const vector2& p) { return p == v; }), "a vertex is not one of the points");
    if (not concave.empty() and not flat and kind != 4)
        for (const vector2& p: pts)
            PBT_CHECK(c, "concave-encloses", point_inside(p, concave) or boundary_distance(p, concave) <= tol, "point (", p.x(), ", ", p.y(),
                      ") is outside of the concave hull, hull ", show(concave));

    // ---- fit of a polygon on points of a plane
    const quaternion q = gen_quaternion(s);
    const vector3 normal = (q * vector3::UnitZ()).normalized();
    const vector3 center = gen_vector(s, 3000);
    const vector3 ux = q * vector3::UnitX(), uy = q * vector3::UnitY();
    const double noise = s.draw(2) ? 0.0 : size * 0.01;
    std::vector<vector3> points;
    for (const vector2& p: pts)
        points.push_back(center + p.x() * ux + p.y() * uy + normal * s.sym(noise));
    const utils::Polygon polygon(points, normal, center);
    PBT_CHECK(c, "axes", near(polygon.get_normal(), normal, 0, 1e-9) and near(polygon.get_center(), center, 0, 0) and
                                 std::abs(polygon.get_x_axis().norm() - 1) < 1e-9 and std::abs(polygon.get_y_axis().norm() - 1) < 1e-9 and
                                 std::abs(polygon.get_x_axis().dot(polygon.get_y_axis())) < 1e-9,
              "normal ", show(polygon.get_normal().transpose()));
    if (flat)
        return;
    c.nontrivial();
    if (kind == 4)
    {
        PBT_CHECK(c, "area", polygon.get_area() <= hullArea * (1 + 1e-6), "area ", polygon.get_area(), " of a hull of ", hullArea);
        return;
    }
    std::string reason;
    PBT_CHECK(c, "valid", polygon.is_valid(reason) and polygon.boundary_length() >= 3, reason, " ", polygon.boundary_length(), " vertices");
    const double area = polygon.get_area();
    PBT_CHECK(c, "area", area > 0 and area <= hullArea * (1 + 1e-6) and pbt::close(area, polygon.area(), 1e-9, 0), "area ", area, " of a hull of ", hullArea);
    PBT_CHECK(c, "area-lost", area >= minimumProportion * hullArea, "area ", area, " of a hull of ", hullArea);
    for (const vector3& v: polygon.get_unprojected_boundary())
    {
        const vector2 p(ux.dot(v - center), uy.dot(v - center));
        PBT_CHECK(c, "boundary", std::abs(normal.dot(v - center)) <= tol, "the boundary is out of the plane");
        PBT_CHECK(c, "boundary", point_inside(p, hull) or boundary_distance(p, hull) <= tol, "the boundary is out of the hull of the points");
    }
    if (kind == 1)
    {
        const Poly b = plane_boundary(polygon);
        const double threshold = std::max(hullArea / 1e5, 10.0) + tol;
        for (const vector3& v: points)
        {
            const vector2 p(polygon.get_x_axis().dot(v - center), polygon.get_y_axis().dot(v - center));
            PBT_CHECK(c, "encloses", point_inside(p, b) or boundary_distance(p, b) <= threshold, "a contour point is ", boundary_distance(p, b),
                      " mm out of the polygon, maximum ", threshold);
        }
    }
    // refusals
    PBT_CHECK(c, "refusal", throws([&]() { utils::Polygon(points, vector3(normal * s.real(1.01, 2)), center); }) and
                                    throws([&]() { utils::Polygon(std::vector<vector3>(points.begin(), points.begin() + 2), normal, center); }),
              "");
}

PBT_MAIN((pbt::Property {.id = "P11",
                         .rule = "point sets (scatters, contours, grids, few points, aligned and duplicated points) in any plane; "
                                 "non-trivial: the points are not all aligned",
                         .run = run}))
