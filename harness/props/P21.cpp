// needs: third_party/p3p.cpp src/utils/*.cpp src/coordinates/*.cpp src/parameters.cpp src/outputs/logger.cpp third_party/concave_fitting.cpp
#include "common.hpp"
#include "p3p.hpp"
using namespace h;

static void run(Source& s, Ctx& c)
{
    const matrix33 r = gen_quaternion(s).toRotationMatrix();
    const vector3 t = gen_vector(s, s.boolean() ? 3 : 3000);
    const double scale = s.boolean() ? 1 : 1000;
    std::vector<vector3> x, p, seen;
    for (int i = 0; i < 3; ++i)
    {
        // directions in the field of view of a camera
        const vector3 direction = vector3(s.sym(0.8), s.sym(0.8), 1).normalized();
        const double depth = s.real(0.4, 6) * scale;
        seen.push_back(direction * depth);
        x.push_back(direction);
        p.push_back(r.transpose() * (seen.back() - t));
    }
    for (int i = 0; i < 3; ++i)
        c.note("point ", show(p[static_cast<size_t>(i)].transpose()), " seen at ", show(x[static_cast<size_t>(i)].transpose()));
    // different directions, and not aligned
    const double angle = std::min({x[0].cross(x[1]).norm(), x[0].cross(x[2]).norm(), x[1].cross(x[2]).norm()});
    const vector3 a = (seen[1] - seen[0]).normalized(), b = (seen[2] - seen[0]).normalized(), e = (seen[2] - seen[1]).normalized();
    const double flat = std::min({a.cross(b).norm(), a.cross(e).norm(), b.cross(e).norm()});
    const double planar = std::abs(x[0].dot(x[1].cross(x[2])));
    const auto solutions = lambdatwist::p3p(x, p);
    PBT_CHECK(c, "count", solutions.size() <= 4, solutions.size(), " solutions");
    if (angle < 0.02 or flat < 0.05 or planar < 0.002)
    {
        c.label("degenerate");
        return;
    }
    c.nontrivial();
    c.label(cat(solutions.size(), " solutions"));
    double best = std::numeric_limits<double>::infinity();
    for (const auto& solution: solutions)
    {
        best = std::min(best, (solution.R - r).norm() + (solution.t - t).norm() / scale);
        PBT_CHECK(c, "finite", solution.R.allFinite() and solution.t.allFinite(), show(solution.R));
    }
    // at least one solution is exact
    c.note("best error ", best);
    // danger cylinder: the jacobian of the constraints is singular, the solution is double
    matrix33 j;
    {
        const double l0 = seen[0].norm(), l1 = seen[1].norm(), l2 = seen[2].norm();
        const double c01 = x[0].dot(x[1]), c02 = x[0].dot(x[2]), c12 = x[1].dot(x[2]);
        j << l0 - l1 * c01, l1 - l0 * c01, 0, l0 - l2 * c02, 0, l2 - l0 * c02, 0, l1 - l2 * c12, l2 - l1 * c12;
        j /= scale;
    }
    const double conditioning = Eigen::JacobiSVD<matrix33>(j).singularValues()[2];
    c.note("conditioning ", conditioning);
    if (conditioning < 0.02)
    {
        c.label("double solution");
        return;
    }
    PBT_CHECK(c, "pose", best < 1e-4, "the closest of the ", solutions.size(), " solutions has an error of ", best);
    for (const auto& solution: solutions)
    {
        PBT_CHECK(c, "rotation", near(solution.R * solution.R.transpose(), matrix33::Identity(), 0, 1e-2) and solution.R.determinant() > 0.9, show(solution.R));
        for (size_t i = 0; i < 3; ++i)
        {
            const vector3 q = solution.R * p[i] + solution.t;
            PBT_CHECK(c, "front", q.dot(x[i]) > 0, "a point is behind the camera");
            PBT_CHECK(c, "projection", q.normalized().cross(x[i]).norm() < 1e-2, "point ", i, " is seen at ", show(q.normalized().transpose()));
        }
    }
}

PBT_MAIN((pbt::Property {.id = "P21",
                         .rule = "three points seen in a field of view of 77 degrees, at any pose; non-trivial: the points are not aligned and their directions differ",
                         .run = run}))
