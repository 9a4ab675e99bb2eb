// needs: src/coordinates/*.cpp src/utils/*.cpp src/parameters.cpp src/outputs/logger.cpp src/features/primitives/plane_segment.cpp src/features/primitives/cylinder_segment.cpp src/features/primitives/shape_primitives.cpp third_party/concave_fitting.cpp
#include "common.hpp"
#include "features/primitives/shape_primitives.hpp"
using namespace h;
using features::primitives::Cylinder;
using features::primitives::Cylinder_Segment;
using features::primitives::Plane_Segment;

struct Tube
{
    vector3 center, axis;
    double radius;

    // distance along the ray (scaled for z = 1), or 0
    double hit(const vector3& ray, bool inside) const
    {
        const vector3 d = ray - axis * axis.dot(ray), o = center - axis * axis.dot(center);
        const double a = d.squaredNorm(), b = d.dot(o), k = o.squaredNorm() - radius * radius;
        const double disc = b * b - a * k;
        if (disc <= 0 or a <= 1e-12)
            return 0;
        return (b + (inside ? std::sqrt(disc) : -std::sqrt(disc))) / a;
    }
    double distance(const vector3& p) const { return (axis.cross(p - center)).norm() - radius; }
};

static bool same(double a, double b) { return a == b or (std::isnan(a) and std::isnan(b)); }

static void run(Source& s, Ctx& c)
{
    Plane_Segment::set_static_members(20, 400);
    utils::Random::get_random_engine().seed(static_cast<uint>(s.draw(1 << 30)));
    const int cols = static_cast<int>(s.integer(6, 16)), rows = static_cast<int>(s.integer(4, 12));
    const double f = s.pick(std::vector<double> {550, 400});
    const uint64_t kind = s.draw(6); // 0..2 a cylinder from outside, 3 from inside, 4 two cylinders, 5 a sphere
    const double turn = s.draw(3) == 0 ? 0 : s.real(0, M_PI), tilt = s.draw(2) ? 0 : s.sym(0.4);
    const vector3 axis(cos(turn) * cos(tilt), sin(turn) * cos(tilt), sin(tilt));
    const double z = s.real(900, 2000);
    const double halfWidth = 10.0 * std::min(cols, rows) / f * z; // of the view at this distance
    std::vector<Tube> tubes;
    const vector3 side = axis.cross(vector3::UnitZ()).normalized();
    if (kind == 4)
    {
        const double r1 = s.real(0.5, 0.9) * halfWidth, r2 = s.real(0.5, 0.9) * halfWidth;
        tubes.push_back({vector3(0, 0, z) + side * (r1 + s.real(0, 0.3) * halfWidth), axis, r1});
        tubes.push_back({vector3(0, 0, z) - side * (r2 + s.real(0, 0.3) * halfWidth), axis, r2});
    }
    else
        tubes.push_back({vector3(0, 0, z) + side * (s.draw(3) == 0 ? 0 : s.sym(0.2)) * halfWidth, axis, s.real(0.6, 1.6) * halfWidth});
    const bool integers = s.draw(3) == 0;
    c.note("cells ", cols, "x", rows, " focal ", f, " kind ", kind, " axis ", show(axis.transpose()), " z ", z, " radius ", tubes[0].radius, " integers ", integers);

    std::vector<Plane_Segment> grid(static_cast<size_t>(cols * rows));
    vectorb mask = vectorb::Zero(cols * rows);
    matrixf cloud = matrixf::Zero(cols * rows * 400, 3);
    std::vector<int> owner(static_cast<size_t>(cols * rows), 0);
    std::vector<vector3> surface;
    for (int cy = 0; cy < rows; ++cy)
        for (int cx = 0; cx < cols; ++cx)
        {
            const long cell = cy * cols + cx;
            std::map<int, int> owners;
            for (int i = 0; i < 20; ++i)
                for (int j = 0; j < 20; ++j)
                {
                    const vector3 ray((cx * 20 + j - cols * 10 + 0.5) / f, (cy * 20 + i - rows * 10 + 0.5) / f, 1);
                    double depth = 0;
                    int who = 0;
                    if (kind == 5)
                    {
                        const vector3 o(0, 0, z);
                        const double a = ray.squaredNorm(), b = ray.dot(o), k = o.squaredNorm() - tubes[0].radius * tubes[0].radius;
                        if (b * b > a * k)
                            depth = (b - std::sqrt(b * b - a * k)) / a;
                    }
                    else
                        for (size_t t = 0; t < tubes.size(); ++t)
                        {
                            const double d = tubes[t].hit(ray, kind == 3);
                            if (d > 0 and (depth == 0 or d < depth))
                            {
                                depth = d;
                                who = static_cast<int>(t);
                            }
                        }
                    if (depth < 100 or depth > 5000)
                        depth = 0;
                    if (integers)
                        depth = std::round(depth);
                    cloud.row(cell * 400 + i * 20 + j) = (ray * depth).transpose().cast<float>();
                    if (depth > 0)
                    {
                        owners[who]++;
                        if (i == 10 and j == 10)
                            surface.push_back(ray * depth);
                    }
                }
            grid[static_cast<size_t>(cell)].init_plane_segment(cloud, static_cast<uint>(cell));
            if (grid[static_cast<size_t>(cell)].is_planar() and owners.size() == 1)
            {
                mask[cell] = true;
                owner[static_cast<size_t>(cell)] = owners.begin()->first;
            }
        }
    const uint active = static_cast<uint>(mask.cast<int>().sum());
    if (active < 8)
        return;
    // the directions of the patches
    matrix33 scatter = matrix33::Zero();
    for (long i = 0; i < mask.size(); ++i)
        if (mask[i])
            scatter += grid[static_cast<size_t>(i)].get_normal() * grid[static_cast<size_t>(i)].get_normal().transpose();
    Eigen::SelfAdjointEigenSolver<matrix33> es(scatter / active);
    const double score = es.eigenvalues()[2] / std::max(es.eigenvalues()[0], 1e-12);
    const double spread = es.eigenvalues()[1];
    c.note("patches ", active, " score ", score, " spread ", spread);

    Cylinder_Segment cylinder(grid, mask, active);
    const uint count = cylinder.get_segment_count();
    c.note("segments ", count);
    if (score < 74)
    {
        c.label("not a cylinder");
        c.nontrivial();
        PBT_CHECK(c, "not-a-cylinder", count == 0, "the normals are not in a plane (score ", score, ")");
        return;
    }
    // every member of a segment, and of its copies
    std::vector<bool> used(active, false);
    double mean = 0;
    for (uint k = 0; k < count; ++k)
    {
        uint inliers = 0;
        double mse = 0;
        for (uint i = 0; i < active; ++i)
            if (cylinder.is_inlier_at(k, i))
            {
                ++inliers;
                PBT_CHECK(c, "inlier-once", not used[i], "a patch is in two cylinders");
                used[i] = true;
                const vector3 p = grid[cylinder.get_local_to_global_mapping(i)].get_centroid();
                PBT_CHECK(c, "mapping", mask[cylinder.get_local_to_global_mapping(i)], "not an activated patch");
                const vector3 a = cylinder.get_axis1_point(k), b = cylinder.get_axis2_point(k);
                mse += std::pow((b - a).normalized().cross(p - a).norm() - cylinder.get_radius(k), 2);
            }
        PBT_CHECK(c, "inliers", inliers >= 6, "a cylinder with ", inliers, " patches");
        PBT_CHECK(c, "mse", pbt::close(cylinder.get_MSE_at(k), mse / inliers, 1e-6, 1e-6), "got ", cylinder.get_MSE_at(k), " expected ", mse / inliers);
        PBT_CHECK(c, "radius-positive", cylinder.get_radius(k) >= 0, "");
        PBT_CHECK(c, "axis-points", near(vector3(cylinder.get_axis2_point(k) - cylinder.get_axis1_point(k)), cylinder.get_normal(), 0, 1e-6) and pbt::close(cylinder.get_axis_normal(k), 1, 1e-9, 0), "");
        mean += cylinder.get_radius(k) / count;
    }
    PBT_CHECK(c, "unit-axis", count == 0 or std::abs(cylinder.get_normal().norm() - 1) < 1e-9, "");
    // copies
    const Cylinder_Segment copy(cylinder);
    PBT_CHECK(c, "copy", copy.get_segment_count() == count and (count == 0 or copy.get_normal() == cylinder.get_normal()), "the copy has ", copy.get_segment_count(), " segments instead of ", count);
    const vector3 probe = vector3(0, 0, z) + gen_vector(s, 500);
    for (uint k = 0; k < count; ++k)
    {
        PBT_CHECK(c, "copy", same(copy.get_radius(k), cylinder.get_radius(k)) and same(copy.get_MSE_at(k), cylinder.get_MSE_at(k)) and copy.get_axis1_point(k) == cylinder.get_axis1_point(k) and
                                     copy.get_axis2_point(k) == cylinder.get_axis2_point(k),
                  "");
        for (uint i = 0; i < active; ++i)
            PBT_CHECK(c, "copy", copy.is_inlier_at(k, i) == cylinder.is_inlier_at(k, i) and copy.get_local_to_global_mapping(i) == cylinder.get_local_to_global_mapping(i), "");
        const Cylinder_Segment part(cylinder, k);
        PBT_CHECK(c, "part", part.get_segment_count() == 1 and same(part.get_radius(0), cylinder.get_radius(k)) and part.get_normal() == cylinder.get_normal(), "the part has ",
                  part.get_segment_count(), " segments");
        PBT_CHECK(c, "part", pbt::close(Cylinder(part)._radius, cylinder.get_radius(k), 1e-9, 0), "radius ", Cylinder(part)._radius);
    }
    if (count == 0)
    {
        // a cylinder that is seen on a wide angle
        PBT_CHECK(c, "missed", kind >= 4 or spread < 0.05 or active < 12, "no cylinder is found in ", active, " patches of a cylinder");
        return;
    }
    PBT_CHECK(c, "similarity", std::abs(cylinder.get_normal_similarity(copy) - 1) < 1e-9, "");
    const Cylinder shape(cylinder), shape2(shape);
    PBT_CHECK(c, "shape", pbt::close(shape._radius, mean, 1e-9, 0) and shape._normal == cylinder.get_normal() and shape2._radius == shape._radius and shape2._normal == shape._normal and shape.is_similar(shape2),
              "radius ", shape._radius, " expected ", mean);
    PBT_CHECK(c, "shape-copy", pbt::close(Cylinder(copy)._radius, mean, 1e-9, 0), "the cylinder of a copied segment has the radius ", Cylinder(copy)._radius, " expected ", mean);
    double best = 1e300;
    for (uint k = 0; k < count; ++k)
    {
        const vector3 a = cylinder.get_axis1_point(k);
        best = std::min(best, cylinder.get_normal().cross(probe - a).norm() - cylinder.get_radius(k));
    }
    PBT_CHECK(c, "distance", pbt::close(cylinder.get_distance(probe), best, 1e-6, 1e-6) and pbt::close(copy.get_distance(probe), best, 1e-6, 1e-6), "got ", cylinder.get_distance(probe), " of the copy ",
              copy.get_distance(probe), " expected ", best);
    if (kind == 5 or spread < 0.05)
        return;
    c.nontrivial();
    c.label(cat("cylinder ", kind));
    const double cosine = std::abs(cylinder.get_normal().dot(axis));
    PBT_CHECK(c, "axis", cosine > cos(5 * M_PI / 180), "the axis is ", acos(cosine) * 180 / M_PI, " degrees away");
    // patches that are small compared to the radius
    if (kind != 4 and 20 / f * z < 0.3 * tubes[0].radius)
    {
        c.label("radius");
        PBT_CHECK(c, "radius", std::abs(cylinder.get_radius(0) / tubes[0].radius - 1) < 0.1, "got ", cylinder.get_radius(0), " expected ", tubes[0].radius);
        double worst = 0;
        for (const vector3& p: surface)
            worst = std::max(worst, std::abs(cylinder.get_distance(p)));
        PBT_CHECK(c, "surface", worst < 0.1 * tubes[0].radius, "a point of the surface is ", worst, " mm away of a cylinder of ", tubes[0].radius, " mm");
    }
}

PBT_MAIN((pbt::Property {.id = "P18",
                         .rule = "depth patches of cylinders seen from outside and inside, of two parallel cylinders and of spheres, exact and rounded to "
                                 "millimeters; non-trivial: enough patches over a wide enough angle to know the cylinder, or certainly not a cylinder",
                         .setup = camera_setup,
                         .run = run,
                         .describeSetup = describe_camera}))
