// needs: src/coordinates/*.cpp src/utils/*.cpp src/parameters.cpp src/outputs/logger.cpp third_party/concave_fitting.cpp
#include "geometry2d.hpp"
#include "coordinates/polygon_coordinates.hpp"
using namespace h;

using Points = std::vector<vector3>;

template<class P> Points vertices(const P& p)
{
    Points v = p.get_unprojected_boundary();
    if (v.size() > 1 and (v.front() - v.back()).norm() <= 1e-9 * (1 + v.front().norm()))
        v.pop_back();
    return v;
}
// same closed boundary, whatever the first vertex and the direction
static bool same_boundary(const Points& a, const Points& b, double tol)
{
    if (a.size() != b.size())
        return false;
    const size_t n = a.size();
    for (size_t start = 0; start < n; ++start)
        for (const bool reverse: {false, true})
        {
            bool ok = true;
            for (size_t i = 0; i < n and ok; ++i)
                ok = (a[i] - b[(reverse ? start + n - i : start + i) % n]).norm() <= tol;
            if (ok)
                return true;
        }
    return false;
}
static std::string show_points(const Points& p)
{
    std::string o;
    for (const vector3& v: p)
        o += cat("(", v.x(), ",", v.y(), ",", v.z(), ") ");
    return o;
}
static std::vector<double> edges(const Points& p)
{
    std::vector<double> r;
    for (size_t i = 0; i < p.size(); ++i)
        r.push_back((p[i] - p[(i + 1) % p.size()]).norm());
    std::sort(r.begin(), r.end());
    return r;
}

static void run(Source& s, Ctx& c)
{
    const Camera& cam = camera();
    const double size = s.logreal(20, 3000);
    const bool convex = s.draw(2) == 0;
    const Poly shape = convex ? gen_convex(s, size) : gen_star(s, size);
    const double area = poly_area(shape);
    auto [ux, uy] = gen_axes(s);
    const bool facing = s.draw(3) != 0; // in front of the camera
    vector3 center = gen_vector(s, 3000);
    if (facing)
        center = vector3(s.sym(1500), s.sym(1500), s.draw(6) == 0 ? -s.real(500, 5000) : s.real(500, 5000));
    const vector3 n = ux.cross(uy);
    Points world;
    for (const vector2& v: shape)
        world.push_back(center + v.x() * ux + v.y() * uy);
    const double tol = 1e-8 * (size + center.norm());
    const utils::Polygon base(to_boost(shape), ux, uy, center);
    c.note("polygon ", show_points(world));
    PBT_CHECK(c, "vertices", same_boundary(world, vertices(base), tol), "got ", show_points(vertices(base)));
    PBT_CHECK(c, "frame", base.get_x_axis() == ux and base.get_y_axis() == uy and base.get_center() == center and near(base.get_normal(), n, 0, 1e-9), "");
    for (size_t i = 0; i < shape.size(); ++i)
        PBT_CHECK(c, "plane-point", near(utils::get_point_from_plane_coordinates(shape[i], center, ux, uy), world[i], 0, tol), "");

    switch (s.draw(4))
    {
        case 0: { // projection on another plane
            c.label("project");
            const quaternion turn = s.draw(3) == 0 ? quaternion::Identity() : s.draw(2) ? gen_small_quaternion(s, 0.3) : gen_quaternion(s);
            const vector3 nx = (turn * ux).normalized(), ny = (turn * uy).normalized(), nn = nx.cross(ny);
            const vector3 nc = center + (s.draw(3) == 0 ? vector3::Zero().eval() : gen_vector(s, size));
            const double cosine = std::abs(nn.dot(n));
            if (cosine < 0.05)
                return;
            c.nontrivial();
            Points expected;
            for (const vector3& v: world)
                expected.push_back(v - nn * nn.dot(v - nc));
            const bool byNormal = s.draw(2);
            const utils::Polygon p = byNormal ? (s.draw(2) ? base.project(nn, nc) : utils::Polygon(base, nn, nc)) : base.project(nx, ny, nc);
            PBT_CHECK(c, "project", same_boundary(expected, vertices(p), tol), "got ", show_points(vertices(p)), " expected ", show_points(expected));
            PBT_CHECK(c, "project-area", pbt::close(p.get_area(), area * cosine, 1e-6, 1e-6) and pbt::close(p.area(), area * cosine, 1e-6, 1e-6), "got ", p.get_area(), " expected ", area * cosine);
            PBT_CHECK(c, "project-frame", near(p.get_center(), nc, 1e-9, 1e-9) and near(p.get_normal(), nn, 0, 1e-7) and
                                                  (byNormal or (near(p.get_x_axis(), nx, 0, 1e-9) and near(p.get_y_axis(), ny, 0, 1e-9))),
                      "center ", show(p.get_center().transpose()), " normal ", show(p.get_normal().transpose()));
            PBT_CHECK(c, "unchanged", same_boundary(world, vertices(base), tol) and base.get_center() == center, "");
            // projecting again changes nothing, and coming back along the normal of the other plane too
            PBT_CHECK(c, "project-twice", same_boundary(vertices(p.project(nn, nc)), vertices(p), tol), "");
            // refusals
            PBT_CHECK(c, "refusal", throws([&]() { (void)base.project(vector3(nn * 1.01), nc); }) and throws([&]() { (void)base.project(vector3(nx * 1.01), ny, nc); }) and
                                            throws([&]() { (void)base.project(nx, vector3(ny * 0.99), nc); }) and
                                            throws([&]() { (void)base.project(nx, vector3((nx + ny).normalized()), nc); }),
                      "");
            return;
        }
        case 1: { // rigid transformation to another frame
            c.label("transform");
            c.nontrivial();
            const quaternion turn = gen_quaternion(s);
            const vector3 nx = (turn * ux).normalized(), ny = (turn * uy).normalized(), nn = nx.cross(ny);
            const vector3 nc = center + gen_vector(s, size);
            const bool byNormal = s.draw(2);
            const utils::Polygon p = byNormal ? base.transform(nn, nc) : base.transform(nx, ny, nc);
            const std::vector<double> ea = edges(world), eb = edges(vertices(p));
            PBT_CHECK(c, "transform-shape", ea.size() == eb.size(), ea.size(), " vertices became ", eb.size());
            for (size_t i = 0; i < ea.size(); ++i)
                PBT_CHECK(c, "transform-shape", pbt::close(ea[i], eb[i], 1e-6, 10 * tol), "an edge of ", ea[i], " became ", eb[i]);
            PBT_CHECK(c, "transform-area", pbt::close(p.get_area(), area, 1e-6, 1e-6), "area ", p.get_area(), " was ", area);
            PBT_CHECK(c, "transform-frame", near(p.get_center(), nc, 1e-9, 1e-9) and near(p.get_normal(), nn, 0, 1e-7) and
                                                    (byNormal or (near(p.get_x_axis(), nx, 0, 1e-9) and near(p.get_y_axis(), ny, 0, 1e-9))),
                      "");
            for (const vector3& v: vertices(p))
                PBT_CHECK(c, "transform-plane", std::abs(nn.dot(v - nc)) <= 10 * tol, "a vertex is out of the plane");
            PBT_CHECK(c, "refusal", throws([&]() { (void)base.transform(vector3(nn * 1.01), nc); }) and throws([&]() { (void)base.transform(vector3(nx * 1.01), ny, nc); }) and
                                            throws([&]() { (void)base.transform(nx, vector3((nx + ny).normalized()), nc); }),
                      "");
            return;
        }
        case 2: { // camera and world
            c.label("camera-world");
            c.nontrivial();
            const quaternion q = gen_quaternion(s);
            const vector3 t = gen_vector(s, 5000);
            const double wtol = 10 * tol + 1e-8 * t.norm();
            const CameraToWorldMatrix c2w = utils::compute_camera_to_world_transform(q, t);
            const WorldToCameraMatrix w2c = utils::compute_world_to_camera_transform(q, t);
            const CameraPolygon cp(base);
            const WorldPolygon wp = cp.to_world_space(c2w);
            Points expected;
            const matrix33 r = reference_axes() * q.toRotationMatrix();
            for (const vector3& v: world)
                expected.push_back(reference_axes() * (q * v + t));
            PBT_CHECK(c, "to-world", same_boundary(expected, vertices(wp), wtol), "got ", show_points(vertices(wp)), " expected ", show_points(expected));
            PBT_CHECK(c, "to-world-area", pbt::close(wp.get_area(), area, 1e-6, 1e-6), "area ", wp.get_area(), " was ", area);
            PBT_CHECK(c, "to-world-frame", near(wp.get_normal(), vector3(r * n), 0, 1e-7) and near(wp.get_center(), vector3(reference_axes() * (q * center + t)), 0, wtol), "");
            const CameraPolygon back = wp.to_camera_space(w2c);
            PBT_CHECK(c, "round-trip", same_boundary(world, vertices(back), wtol) and near(back.get_center(), center, 0, wtol) and near(back.get_normal(), n, 0, 1e-7) and
                                               pbt::close(back.get_area(), area, 1e-6, 1e-6),
                      "got ", show_points(vertices(back)));
            // a merge with a polygon seen from somewhere else is the merge in the plane
            const vector2 shift(s.sym(size * 0.5), s.sym(size * 0.5));
            const WorldPolygon other = CameraPolygon(utils::Polygon(to_boost(translated(shape, shift)), ux, uy, center)).to_world_space(c2w);
            WorldPolygon merged = wp;
            merged.merge(other);
            const double uni = wp.union_area(other);
            double perimeter = 0;
            for (const double e: edges(world))
                perimeter += 2 * e;
            PBT_CHECK(c, "merge", merged.get_area() <= uni + perimeter * std::max(uni / 1e5, 10.0) and merged.get_area() >= 0.74 * area and near(merged.get_center(), wp.get_center(), 0, wtol) and
                                          near(merged.get_normal(), wp.get_normal(), 0, 1e-9),
                      "area ", merged.get_area(), " of the union ", uni);
            if (convex and wp.inter_area(other) > 0.01 * area)
            {
                const Poly m = plane_boundary(merged);
                const double threshold = std::max(uni / 1e5, 10.0) * 1.01 + wtol;
                for (const WorldPolygon& o: {wp, other})
                    for (const vector3& v: vertices(o))
                    {
                        const vector2 p(merged.get_x_axis().dot(v - merged.get_center()), merged.get_y_axis().dot(v - merged.get_center()));
                        PBT_CHECK(c, "merge-encloses", point_inside(p, m) or boundary_distance(p, m) <= threshold, "a vertex is ", boundary_distance(p, m), " mm out of the merged polygon");
                    }
            }
            return;
        }
        default: { // projection to the screen
            c.label("screen");
            const CameraPolygon cp(base);
            double minZ = 1e9, maxZ = -1e9;
            for (const vector3& v: world)
            {
                minZ = std::min(minZ, v.z());
                maxZ = std::max(maxZ, v.z());
                if (std::abs(v.z()) < 1)
                    return;
            }
            Poly screen;
            Points expected;
            for (const vector3& v: world)
            {
                screen.emplace_back(cam.fx1 * v.x() / v.z() + cam.cx1, cam.fy1 * v.y() / v.z() + cam.cy1);
                expected.emplace_back(screen.back().x(), screen.back().y(), v.z());
            }
            std::vector<vector3> points;
            for (const ScreenCoordinate& p: cp.get_screen_points())
                points.push_back(p);
            if (points.size() > 1 and (points.front() - points.back()).norm() <= 1e-6)
                points.pop_back();
            double scale = 1;
            for (const vector3& v: expected)
                scale = std::max(scale, v.norm());
            PBT_CHECK(c, "screen-points", same_boundary(expected, points, 1e-6 * scale), "got ", show_points(points), " expected ", show_points(expected));
            if (maxZ < 0)
            {
                c.label("behind");
                c.nontrivial();
                PBT_CHECK(c, "visible-behind", not cp.is_visible_in_screen_space(), "a polygon behind the camera is visible");
                return;
            }
            if (minZ < 10)
                return;
            PBT_CHECK(c, "screen-area", pbt::close(boost::geometry::area(cp.to_screen_space()), poly_area(screen), 1e-6, 1e-3), "got ",
                      boost::geometry::area(cp.to_screen_space()), " expected ", poly_area(screen));
            const auto rect = [&](double m) {
                return Poly {vector2(m, m), vector2(cam.w1 - m, m), vector2(cam.w1 - m, cam.h1 - m), vector2(m, cam.h1 - m)};
            };
            const double inside = poly_area(clip_convex(screen, rect(2))), outside = poly_area(clip_convex(screen, rect(-1)));
            const bool visible = cp.is_visible_in_screen_space();
            if (inside > 0.1)
            {
                c.label("visible");
                c.nontrivial();
                PBT_CHECK(c, "visible", visible, inside, " px of the polygon are in the image, but it is not visible");
            }
            else if (outside < 1e-6 and poly_area(screen) > 1)
            {
                c.label("out");
                c.nontrivial();
                PBT_CHECK(c, "not-visible", not visible, "the polygon is out of the image, but visible: ", show(screen));
            }
        }
    }
}

PBT_MAIN((pbt::Property {.id = "P13",
                         .rule = "convex and star shaped polygons in any plane and camera configuration: projections, rigid "
                                 "transformations, camera/world conversions, screen visibility; non-trivial: the case reaches one of "
                                 "the compared results (not nearly degenerated)",
                         .setup = camera_setup,
                         .run = run,
                         .describeSetup = describe_camera}))
