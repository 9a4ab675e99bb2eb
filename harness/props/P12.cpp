// needs: src/coordinates/*.cpp src/utils/*.cpp src/parameters.cpp src/outputs/logger.cpp third_party/concave_fitting.cpp
#include "geometry2d.hpp"
using namespace h;

struct TestPolygon : utils::Polygon
{
    using utils::Polygon::Polygon;
    const polygon& raw() const { return _polygon; }
};

static Poly gen_shape(Source& s, double size, bool& convex)
{
    convex = s.draw(2) == 0;
    return convex ? gen_convex(s, size) : gen_star(s, size);
}

static void run(Source& s, Ctx& c)
{
    const auto [ux, uy] = gen_axes(s);
    const vector3 center = gen_vector(s, 3000);
    const double size = s.logreal(50, 3000);
    bool ca, cb;
    const Poly a = gen_shape(s, size, ca);
    Poly b = gen_shape(s, size * s.pick(std::vector<double> {1, 0.5, 0.1}), cb);
    b = translated(b, vector2(s.sym(2 * size), s.sym(2 * size)) * s.pick(std::vector<double> {0.3, 1, 0}));
    const double areaA = poly_area(a), areaB = poly_area(b);
    c.note("A ", show(a), " B ", show(b));

    // the boundary can be given in any direction, open or closed
    const auto build = [&](Poly p, const vector3& x, const vector3& y, const vector3& o) {
        if (s.draw(2))
            std::reverse(p.begin(), p.end());
        if (s.draw(2))
            p.push_back(p.front());
        return TestPolygon(to_boost(p), x, y, o);
    };
    const TestPolygon pa = build(a, ux, uy, center), pb = build(b, ux, uy, center);
    PBT_CHECK(c, "area", pbt::close(pa.area(), areaA, 1e-9, 1e-9) and pbt::close(pa.get_area(), areaA, 1e-9, 1e-9) and pa.is_valid(), "area ", pa.area(),
              " expected ", areaA);
    PBT_CHECK(c, "length", pa.boundary_length() == a.size(), "boundary length ", pa.boundary_length(), " expected ", a.size());

    // contains
    for (int i = 0; i < 10; ++i)
    {
        const vector2 p(s.sym(1.2 * size), s.sym(1.2 * size));
        if (boundary_distance(p, a) > 1e-6 * size)
            PBT_CHECK(c, "contains", pa.contains(p) == point_inside(p, a), "point (", p.x(), ", ", p.y(), ")");
    }
    // a vertex is not in the interior
    for (const vector2& v: a)
        PBT_CHECK(c, "contains-vertex", not pa.contains(v), "");

    // the other polygon can be expressed with other axes of the same plane
    const double turn = s.draw(2) ? s.real(0, 2 * M_PI) : 0.0;
    const vector2 shift(s.sym(size), s.sym(size));
    const vector3 vx = (cos(turn) * ux + sin(turn) * uy).normalized(), vy = (-sin(turn) * ux + cos(turn) * uy).normalized();
    const vector3 otherCenter = center + shift.x() * ux + shift.y() * uy;
    Poly local;
    for (const vector2& p: b)
    {
        const vector2 d = p - shift;
        local.emplace_back(cos(turn) * d.x() + sin(turn) * d.y(), -sin(turn) * d.x() + cos(turn) * d.y());
    }
    const TestPolygon other = build(local, vx, vy, otherCenter);

    const double tolerance = 1e-6 * size * size;
    const double inter = pa.inter_area(other), uni = pa.union_area(other), iou = pa.inter_over_union(other);
    c.note("inter ", inter, " union ", uni, " iou ", iou);
    const bool overlap = inter > tolerance;
    if (overlap and inter < std::min(areaA, areaB) - tolerance)
        c.nontrivial();
    c.label(overlap ? "overlap" : "disjoint");
    PBT_CHECK(c, "inclusion-exclusion", std::abs(inter + uni - areaA - areaB) <= tolerance, "inter ", inter, " union ", uni, " areas ", areaA, " ", areaB);
    PBT_CHECK(c, "bounds", inter >= -tolerance and inter <= std::min(areaA, areaB) + tolerance and uni >= std::max(areaA, areaB) - tolerance, "");
    PBT_CHECK(c, "symmetry", std::abs(other.inter_area(pa) - inter) <= tolerance and std::abs(other.union_area(pa) - uni) <= tolerance and
                                     pbt::close(other.inter_over_union(pa), iou, 0, 1e-6),
              "");
    PBT_CHECK(c, "iou-range", iou >= 0 and iou <= 1 + 1e-9 and iou <= inter / uni + 1e-6 and std::isfinite(iou), iou);
    PBT_CHECK(c, "self", pbt::close(pa.inter_over_union(pa), 1, 0, 1e-9) and pbt::close(pa.inter_area(pa), areaA, 1e-9, 0) and
                                 pbt::close(pa.union_area(pa), areaA, 1e-9, 0),
              "");
    if (inter == 0)
        PBT_CHECK(c, "iou-disjoint", iou == 0, iou);
    if (ca or cb)
    {
        const double expected = cb ? poly_area(clip_convex(a, b)) : poly_area(clip_convex(b, a));
        PBT_CHECK(c, "inter-area", std::abs(inter - expected) <= tolerance, "got ", inter, " expected ", expected);
    }
    if (ca and cb)
    {
        PBT_CHECK(c, "iou", pbt::close(iou, inter > tolerance ? inter / uni : 0.0, 1e-6, 1e-5), "got ", iou, " expected ", inter / uni);
        if (overlap)
            PBT_CHECK(c, "one", pbt::close(boost::geometry::area(pa.inter_one(other)), inter, 1e-6, tolerance) and
                                        pbt::close(boost::geometry::area(pa.union_one(other)), uni, 1e-6, tolerance),
                      "");
    }
    // disjoint polygons: the union is the largest one (or all, when they touch each other)
    if (ca and cb and inter == 0)
    {
        const double one = boost::geometry::area(pa.union_one(other));
        PBT_CHECK(c, "one", pbt::close(one, std::max(areaA, areaB), 1e-6, tolerance) or pbt::close(one, uni, 1e-6, tolerance), "area of the union ", one, " of ", areaA, " and ", areaB);
    }
    // the parts are some of the whole
    PBT_CHECK(c, "one", boost::geometry::area(pa.inter_one(other)) <= inter + tolerance and boost::geometry::area(pa.union_one(other)) <= uni + tolerance, "");

    // simplification and merge: what is far from the boundaries is kept
    TestPolygon merged = pa;
    const bool doMerge = s.draw(3) != 0;
    double threshold, before;
    if (doMerge)
    {
        merged.merge_union(other);
        before = uni;
        threshold = std::max(uni / 1e5, 10.0);
        c.label("merge");
    }
    else
    {
        const double t = s.real(1, 100);
        merged.simplify(t);
        before = areaA;
        threshold = std::max(areaA / 1e5, t);
        c.label("simplify");
    }
    std::string reason;
    const double after = merged.area();
    PBT_CHECK(c, "cached-area", pbt::close(merged.get_area(), after, 1e-9, 1e-9), "get_area ", merged.get_area(), " area ", after);
    if (not doMerge or overlap)
    {
        PBT_CHECK(c, "simplify-valid", merged.is_valid(reason), reason);
        if (not doMerge or (ca and cb))
            PBT_CHECK(c, "simplify-area", after > 0.75 * before - tolerance, "area ", after, " was ", before);
    }
    if (not doMerge or (ca and cb and overlap) or (not overlap and inter == 0 and areaB < areaA))
    {
        const bool withB = doMerge and overlap;
        for (int i = 0; i < 10; ++i)
        {
            const vector2 p(s.sym(2 * size), s.sym(2 * size));
            const double dist = std::min(boundary_distance(p, a), withB ? boundary_distance(p, b) : 1e9);
            if (dist <= 1.05 * threshold + 1e-6 * size)
                continue;
            const bool expected = point_inside(p, a) or (withB and point_inside(p, b));
            if (expected)
                c.label("deep point");
            PBT_CHECK(c, "kept", merged.contains(p) == expected, "point (", p.x(), ", ", p.y(), ") at ", dist, " mm of the boundaries, threshold ", threshold,
                      " expected ", expected);
        }
    }
    PBT_CHECK(c, "frame", merged.get_center() == pa.get_center() and merged.get_x_axis() == pa.get_x_axis() and merged.get_y_axis() == pa.get_y_axis(), "");
}

PBT_MAIN((pbt::Property {.id = "P12",
                         .rule = "pairs of convex and star shaped polygons of one plane, with any axes, overlapping or not; non-trivial: "
                                 "they overlap partly",
                         .run = run}))
