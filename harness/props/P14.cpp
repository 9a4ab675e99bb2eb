// needs: src/coordinates/*.cpp src/utils/*.cpp src/parameters.cpp src/outputs/logger.cpp third_party/concave_fitting.cpp
#include "common.hpp"
#include "utils/distance_utils.hpp"
#include "utils/line.hpp"
using namespace h;

// Liang-Barsky clipping: parameters of the part of the segment in the image reduced by a margin
static bool clip(vector2 a, vector2 b, double w, double hh, double margin, double& t0, double& t1)
{
    a -= vector2(margin, margin);
    b -= vector2(margin, margin);
    w -= 2 * margin;
    hh -= 2 * margin;
    t0 = 0;
    t1 = 1;
    const vector2 d = b - a;
    const double p[4] = {-d.x(), d.x(), -d.y(), d.y()};
    const double q[4] = {a.x(), w - a.x(), a.y(), hh - a.y()};
    for (int i = 0; i < 4; ++i)
    {
        if (p[i] == 0)
        {
            if (q[i] < 0)
                return false;
            continue;
        }
        const double r = q[i] / p[i];
        if (p[i] < 0)
            t0 = std::max(t0, r);
        else
            t1 = std::min(t1, r);
    }
    return t0 <= t1;
}

template<int D> Eigen::Vector<double, D> gen_point(Source& s, double range)
{
    Eigen::Vector<double, D> v;
    for (int i = 0; i < D; ++i)
        v[i] = s.sym(range);
    return v;
}

template<int D> void distances(Source& s, Ctx& c)
{
    using V = Eigen::Vector<double, D>;
    const V a = gen_point<D>(s, 1000), b = gen_point<D>(s, 1000), p = gen_point<D>(s, 1000);
    c.require((b - a).norm() > 1e-3);
    const V u = (b - a).normalized();
    const utils::Segment<D> seg(a, b);
    const utils::Line<D> line(a, V((b - a) * s.logreal(0.01, 100)));
    const V foot = a + u * u.dot(p - a);
    const double tol = 1e-9 * (1 + a.norm() + b.norm() + p.norm()) * (1 + 1 / (b - a).norm());
    PBT_CHECK(c, "normal", near(line.compute_normal(), u, 0, 1e-9) and near(line.get_normal(), u, 0, 1e-9) and near(seg.compute_normal(), u, 0, 1e-9), D, "D");
    PBT_CHECK(c, "closest-point", near(line.get_closest_point_on_line(p), foot, 0, 10 * tol), D, "D");
    PBT_CHECK(c, "distance", near(line.distance(p), V(p - foot), 0, 10 * tol), D, "D line");
    const double along = u.dot(p - a);
    if (along >= 0 and along <= (b - a).norm())
    {
        PBT_CHECK(c, "closest-point", near(seg.get_closest_point_on_line(p), foot, 0, 10 * tol), D, "D segment");
        PBT_CHECK(c, "distance", near(seg.distance(p), V(p - foot), 0, 10 * tol), D, "D segment");
    }
    PBT_CHECK(c, "accessors", seg.get_start_point() == a and seg.get_end_point() == b and utils::Segment<D>(seg).get_end_point() == b and
                                      utils::Segment<D>(seg).get_start_point() == a and line.get_start_point() == a,
              "");
    utils::Segment<D> other;
    other.set_points(b, p);
    PBT_CHECK(c, "accessors", other.get_start_point() == b and other.get_end_point() == p, "");
}

static void run(Source& s, Ctx& c)
{
    const Camera& k = camera();
    distances<2>(s, c);
    distances<3>(s, c);

    // ---- clipping to the image
    const auto coordinate = [&](double size) {
        switch (s.draw(6))
        {
            case 0:
            case 4:
            case 5:
                return s.real(0, size);
            case 1:
                return -s.logreal(1, 5000);
            case 2:
                return size + s.logreal(1, 5000);
            default:
                return s.real(-2 * size, 3 * size);
        }
    };
    vector2 a(coordinate(k.w1), coordinate(k.h1)), b(coordinate(k.w1), coordinate(k.h1));
    if (s.draw(6) == 5)
        b.x() = a.x();
    else if (s.draw(6) == 5)
        b.y() = a.y();
    c.note("segment ", show(a.transpose()), " -> ", show(b.transpose()));
    // the border of the image is one pixel wide: a clipped segment can stop anywhere in it
    const double border = 1.001;
    double t0, t1, i0, i1, o0, o1;
    const bool touches = clip(a, b, k.w1, k.h1, border, i0, i1);
    const bool clearlyOut = not clip(a, b, k.w1, k.h1, -1e-3, o0, o1);
    const double length = (b - a).norm();
    const bool clearlyIn = touches and (i1 - i0) * length > 1e-3;
    utils::Segment<2> out;
    const bool got = utils::clamp_to_screen(utils::Segment<2>(a, b), out);
    const double m = 1e-6;
    const auto in = [&](const vector2& p) {
        return p.x() >= -m and p.x() <= k.w1 + m and p.y() >= -m and p.y() <= k.h1 + m;
    };
    if (got and not clearlyOut and length > 1e-3)
    {
        const vector2 p0 = out.get_start_point(), p1 = out.get_end_point();
        PBT_CHECK(c, "clip-outside", in(p0) and in(p1), "ends of the clipped segment: ", show(p0.transpose()), " ", show(p1.transpose()));
        const vector2 u = (b - a) / length;
        const auto at = [&](const vector2& p) { return u.dot(p - a); };
        const auto off = [&](const vector2& p) { return (p - a - u * at(p)).norm(); };
        const double tol = 1e-5 * (1 + length * 1e-3);
        t0 = std::min(at(p0), at(p1));
        t1 = std::max(at(p0), at(p1));
        PBT_CHECK(c, "clip-not-on-segment", off(p0) <= tol and off(p1) <= tol and t0 >= -tol and t1 <= length + tol, show(p0.transpose()), " ",
                  show(p1.transpose()));
        if (clearlyIn)
            PBT_CHECK(c, "clip", t0 <= i0 * length + tol and t1 >= i1 * length - tol, "the clipped segment ", show(p0.transpose()), " ",
                      show(p1.transpose()), " misses a part of the image: from ", show((a + i0 * (b - a)).transpose()), " to ",
                      show((a + i1 * (b - a)).transpose()));
    }
    if (clearlyIn)
    {
        const int inside = (in(a) ? 1 : 0) + (in(b) ? 1 : 0);
        c.label(cat(inside, " ends inside, crossing"));
        if (inside < 2)
            c.nontrivial();
        PBT_CHECK(c, "clip-refused", got, "a segment that crosses the image was refused");
    }
    else if (clearlyOut)
    {
        c.label("out of the image");
        PBT_CHECK(c, "clip-accepted", not got, "a segment out of the image was accepted");
    }

    // ---- intersections
    {
        const vector2 p0 = gen_point<2>(s, 500), p1 = gen_point<2>(s, 500), q0 = gen_point<2>(s, 500), q1 = gen_point<2>(s, 500);
        const vector2 d1 = p1 - p0, d2 = q1 - q0;
        const double det = d1.x() * d2.y() - d1.y() * d2.x();
        if (d1.norm() > 1 and d2.norm() > 1 and std::abs(det) > 1e-3 * d1.norm() * d2.norm())
        {
            const vector2 r = q0 - p0;
            const double t = (r.x() * d2.y() - r.y() * d2.x()) / det, u = (r.x() * d1.y() - r.y() * d1.x()) / det;
            vector2 point;
            const bool hit = utils::intersects(utils::Segment<2>(p0, p1), utils::Segment<2>(q0, q1), point);
            const double e = 1e-6;
            if (t > e and t < 1 - e and u > e and u < 1 - e)
            {
                c.label("intersecting segments");
                PBT_CHECK(c, "intersection", hit and near(point, vector2(p0 + t * d1), 0, 1e-4), "expected ", show((p0 + t * d1).transpose()));
            }
            else if (t < -e or t > 1 + e or u < -e or u > 1 + e)
                PBT_CHECK(c, "intersection", not hit, "segments that do not cross: ", t, " ", u);
            // lines: an intersection that is found is on both
            utils::Line<2> l1(p0, d1), l2(q0, d2);
            vector2 lp;
            if (utils::intersects(static_cast<const utils::ILine<2>&>(l1), static_cast<const utils::ILine<2>&>(l2), lp))
                PBT_CHECK(c, "line-intersection", near(lp, vector2(p0 + t * d1), 0, 1e-3), show(lp.transpose()));
        }
    }

    // ---- intersections in 3D
    {
        const vector3 meet = gen_point<3>(s, 500), d1 = gen_direction(s), d2 = gen_direction(s);
        const double sine = d1.cross(d2).norm();
        if (sine > 0.05)
        {
            // positions of the two ends of each segment, from the point where the lines meet
            const double a0 = s.sym(300), a1 = s.sym(300), b0 = s.sym(300), b1 = s.sym(300);
            const vector3 gap = d1.cross(d2).normalized() * (s.boolean() ? 0.0 : s.real(0.1, 200));
            vector3 point;
            const bool hit = utils::intersects(utils::Segment<3>(vector3(meet + a0 * d1), vector3(meet + a1 * d1)), utils::Segment<3>(vector3(meet + gap + b0 * d2), vector3(meet + gap + b1 * d2)), point);
            const double e = 0.05;
            if (std::abs(a0 - a1) > 1 and std::abs(b0 - b1) > 1)
            {
                const bool isIn = std::min(a0, a1) < -e and std::max(a0, a1) > e and std::min(b0, b1) < -e and std::max(b0, b1) > e;
                const bool isOut = std::min(a0, a1) > e or std::max(a0, a1) < -e or std::min(b0, b1) > e or std::max(b0, b1) < -e;
                if (gap.norm() == 0 and isIn)
                {
                    c.label("intersecting segments in 3D");
                    PBT_CHECK(c, "intersection", hit and near(point, meet, 0, 1e-4), "expected ", show(meet.transpose()), " got ", hit, " ", show(point.transpose()));
                }
                else if (gap.norm() > 0 or isOut)
                    PBT_CHECK(c, "intersection", not hit, "3D segments that do not cross, gap ", gap.norm());
            }
        }
    }

    // ---- closest points of two lines
    {
        const vector3 p1 = gen_point<3>(s, 1000), p2 = gen_point<3>(s, 1000), n1 = gen_direction(s);
        const vector3 n2 = s.draw(5) == 0 ? (s.draw(2) ? n1 : vector3(-n1)) : gen_direction(s);
        const double sine = n1.cross(n2).norm();
        vector3 c1, c2;
        const bool found = utils::compute_closest_points<3>(p1, n1, p2, n2, c1, c2);
        const vector3 dist = utils::signed_line_distance<3>(p1, n1, p2, n2);
        if (sine > 1e-3)
        {
            const double tol = 1e-6 / sine;
            PBT_CHECK(c, "closest-points", found, "skew lines reported as parallel");
            const auto onLine = [](const vector3& p, const vector3& o, const vector3& n) {
                return (p - o - n * n.dot(p - o)).norm();
            };
            PBT_CHECK(c, "closest-points", onLine(c1, p1, n1) <= tol and onLine(c2, p2, n2) <= tol and
                                                   std::abs((c1 - c2).dot(n1)) <= tol / sine and std::abs((c1 - c2).dot(n2)) <= tol / sine,
                      show(c1.transpose()), " ", show(c2.transpose()));
            PBT_CHECK(c, "line-distance", near(dist, vector3(c1 - c2), 0, tol), "");
        }
        else if (sine < 1e-12)
        {
            c.label("parallel lines");
            const vector3 r = p1 - p2;
            PBT_CHECK(c, "parallel", pbt::close(dist.norm(), (r - n1 * n1.dot(r)).norm(), 1e-6, 1e-6), dist.norm());
        }
    }
    // ---- angles
    {
        const double x = s.sym(4 * M_PI), y = s.sym(4 * M_PI);
        const double d = utils::angle_distance(x, y);
        PBT_CHECK(c, "angle", d >= -M_PI - 1e-12 and d <= M_PI + 1e-12 and std::abs(std::sin(d) - std::sin(x - y)) < 1e-9 and
                                      std::abs(std::cos(d) - std::cos(x - y)) < 1e-9,
                  x, " ", y, " ", d);
        const double eps = s.logreal(1e-9, 1);
        PBT_CHECK(c, "double-equal", utils::double_equal(x, x + 0.9 * eps, eps) and utils::double_equal(x, x - 0.9 * eps, eps) and not utils::double_equal(x, x + 1.1 * eps + 1e-12, eps) and
                                             not utils::double_equal(x, x - 1.1 * eps - 1e-12, eps) and utils::double_equal(x, x),
                  "");
    }
}

PBT_MAIN((pbt::Property {.id = "P14",
                         .rule = "points, segments and lines in 2D and 3D, with both ends in, left, right, over or under the image, "
                                 "vertical and horizontal ones included; non-trivial: the segment crosses the border of the image",
                         .setup = camera_setup,
                         .run = run,
                         .describeSetup = describe_camera}))
