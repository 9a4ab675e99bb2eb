// Reference plane geometry, written without the repository's code nor boost
#pragma once
#include "common.hpp"
#include "utils/polygon.hpp"

namespace h {
using Poly = std::vector<vector2>;

inline double cross2(const vector2& a, const vector2& b, const vector2& c)
{
    return (b.x() - a.x()) * (c.y() - a.y()) - (b.y() - a.y()) * (c.x() - a.x());
}

inline double signed_area(const Poly& p)
{
    double a = 0;
    for (size_t i = 0; i < p.size(); ++i)
    {
        const vector2 &u = p[i], &v = p[(i + 1) % p.size()];
        a += u.x() * v.y() - u.y() * v.x();
    }
    return a / 2;
}
inline double poly_area(const Poly& p) { return std::abs(signed_area(p)); }

// counter clockwise convex hull
inline Poly convex_hull(Poly p)
{
    std::sort(p.begin(), p.end(), [](const vector2& a, const vector2& b) {
        return a.x() < b.x() or (a.x() == b.x() and a.y() < b.y());
    });
    p.erase(std::unique(p.begin(), p.end()), p.end());
    if (p.size() < 3)
        return p;
    Poly r(2 * p.size());
    size_t k = 0;
    for (size_t i = 0; i < p.size(); ++i)
    {
        while (k >= 2 and cross2(r[k - 2], r[k - 1], p[i]) <= 0)
            --k;
        r[k++] = p[i];
    }
    for (size_t i = p.size() - 1, t = k + 1; i-- > 0;)
    {
        while (k >= t and cross2(r[k - 2], r[k - 1], p[i]) <= 0)
            --k;
        r[k++] = p[i];
    }
    r.resize(k - 1);
    return r;
}

inline double segment_distance(const vector2& p, const vector2& a, const vector2& b)
{
    const vector2 d = b - a;
    const double l = d.squaredNorm();
    const double t = l > 0 ? std::clamp((p - a).dot(d) / l, 0.0, 1.0) : 0.0;
    return (p - (a + t * d)).norm();
}
inline double boundary_distance(const vector2& p, const Poly& poly)
{
    double best = std::numeric_limits<double>::max();
    for (size_t i = 0; i < poly.size(); ++i)
        best = std::min(best, segment_distance(p, poly[i], poly[(i + 1) % poly.size()]));
    return best;
}
// even odd rule
inline bool point_inside(const vector2& p, const Poly& poly)
{
    bool in = false;
    for (size_t i = 0, j = poly.size() - 1; i < poly.size(); j = i++)
    {
        const vector2 &a = poly[i], &b = poly[j];
        if ((a.y() > p.y()) != (b.y() > p.y()) and p.x() < (b.x() - a.x()) * (p.y() - a.y()) / (b.y() - a.y()) + a.x())
            in = not in;
    }
    return in;
}
// clip of a polygon by a convex counter clockwise one
inline Poly clip_convex(Poly subject, const Poly& clip)
{
    for (size_t i = 0; i < clip.size() and not subject.empty(); ++i)
    {
        const vector2 &a = clip[i], &b = clip[(i + 1) % clip.size()];
        Poly out;
        for (size_t k = 0; k < subject.size(); ++k)
        {
            const vector2 &p = subject[k], &q = subject[(k + 1) % subject.size()];
            const double dp = cross2(a, b, p), dq = cross2(a, b, q);
            if (dp >= 0)
                out.push_back(p);
            if ((dp > 0 and dq < 0) or (dp < 0 and dq > 0))
                out.push_back(p + (q - p) * (dp / (dp - dq)));
        }
        subject = out;
    }
    return subject;
}

// convex polygon with vertices around a center, ccw
inline Poly gen_convex(Source& s, double size)
{
    const int n = static_cast<int>(3 + s.draw(10));
    const double rx = size * s.real(0.3, 1), ry = size * s.real(0.3, 1), rot = s.real(0, M_PI);
    Poly p;
    const double start = s.real(0, 2 * M_PI);
    for (int i = 0; i < n; ++i)
    {
        // one vertex per sector: never degenerated
        const double a = start + 2 * M_PI * (i + s.real(0, 0.6)) / n;
        const vector2 v(rx * cos(a), ry * sin(a));
        p.emplace_back(cos(rot) * v.x() - sin(rot) * v.y(), sin(rot) * v.x() + cos(rot) * v.y());
    }
    return convex_hull(p);
}
// star shaped polygon: simple, generally not convex, ccw
inline Poly gen_star(Source& s, double size)
{
    const int n = static_cast<int>(4 + s.draw(12));
    Poly p;
    for (int i = 0; i < n; ++i)
    {
        const double a = 2 * M_PI * (i + s.real(0, 0.7)) / n;
        p.push_back(size * s.real(0.25, 1) * vector2(cos(a), sin(a)));
    }
    return p;
}
inline Poly translated(Poly p, const vector2& t)
{
    for (vector2& v: p)
        v += t;
    return p;
}
inline std::vector<utils::Polygon::point_2d> to_boost(const Poly& p)
{
    std::vector<utils::Polygon::point_2d> r;
    for (const vector2& v: p)
        r.emplace_back(v.x(), v.y());
    return r;
}
inline Poly from_boost(const utils::Polygon::polygon& p)
{
    Poly r;
    for (const auto& v: p.outer())
        r.emplace_back(v.x(), v.y());
    if (r.size() > 1 and r.front() == r.back())
        r.pop_back();
    return r;
}
// the boundary of a polygon in its own plane, without the closing point
template<class P> Poly plane_boundary(const P& p)
{
    Poly r;
    for (const vector3& v: p.get_unprojected_boundary())
        r.emplace_back(p.get_x_axis().dot(v - p.get_center()), p.get_y_axis().dot(v - p.get_center()));
    if (r.size() > 1 and (r.front() - r.back()).norm() < 1e-9 * (1 + r.front().norm() + p.get_center().norm()))
        r.pop_back();
    return r;
}
inline std::pair<vector3, vector3> gen_axes(Source& s)
{
    const matrix33 r = gen_quaternion(s).toRotationMatrix();
    return {r.col(0).normalized(), r.col(1).normalized()};
}
inline std::string show(const Poly& p)
{
    std::string o;
    for (const vector2& v: p)
        o += cat("(", v.x(), ",", v.y(), ") ");
    return o;
}
} // namespace h
