// needs: src/coordinates/*.cpp src/utils/*.cpp src/parameters.cpp src/outputs/logger.cpp third_party/concave_fitting.cpp src/features/primitives/plane_segment.cpp
#include "common.hpp"
#include "features/primitives/plane_segment.hpp"
using namespace h;
using features::primitives::Plane_Segment;
using vl3 = Eigen::Matrix<long double, 3, 1>;
using ml3 = Eigen::Matrix<long double, 3, 3>;

static double quantization(double z) { return std::max(-0.53 + 0.74 * z / 1000 + 2.73 * z * z / 1e6, 0.5); }

// principal component analysis of a point set, in extended precision
struct Pca
{
    std::vector<vl3> points;
    vl3 mean;
    vl3 values; // ascending variances
    vl3 normal; // toward the camera
    long double d = 0;
    double range = 0;

    void add(double x, double y, double z) { points.emplace_back(x, y, z); }
    void add(const Pca& o) { points.insert(points.end(), o.points.begin(), o.points.end()); }
    void fit()
    {
        mean.setZero();
        range = 0;
        for (const vl3& p: points)
        {
            mean += p;
            range = std::max(range, static_cast<double>(p.norm()));
        }
        mean /= static_cast<long double>(points.size());
        ml3 cov = ml3::Zero();
        for (const vl3& p: points)
            cov += (p - mean) * (p - mean).transpose();
        cov /= static_cast<long double>(points.size());
        Eigen::SelfAdjointEigenSolver<ml3> es(cov);
        values = es.eigenvalues();
        normal = es.eigenvectors().col(0);
        d = -normal.dot(mean);
        if (d < 0)
        {
            d = -d;
            normal = -normal;
        }
    }
    // error of the stored single precision products
    double cov_error() const { return 1e-6 * range * range; }
    double angle_error() const { return 4 * cov_error() / static_cast<double>(values[1] - values[0]); }
};

enum Kind
{
    Surface,
    Step
};

static void check_fit(Ctx& c, const Plane_Segment& seg, const Pca& ref, const char* what)
{
    PBT_CHECK(c, cat(what, "-count"), seg.get_point_count() == ref.points.size(), seg.get_point_count(), " points, expected ", ref.points.size());
    PBT_CHECK(c, cat(what, "-centroid"), near(vector3(seg.get_centroid()), vector3(ref.mean.cast<double>()), 1e-7, 1e-6), "got ", show(seg.get_centroid().transpose()),
              " expected ", show(ref.mean.cast<double>().transpose()));
    PBT_CHECK(c, cat(what, "-mse"), std::abs(seg.get_MSE() - static_cast<double>(ref.values[0])) <= ref.cov_error() + 1e-6 * static_cast<double>(ref.values[0]), "got ",
              seg.get_MSE(), " expected ", static_cast<double>(ref.values[0]));
    PBT_CHECK(c, cat(what, "-unit"), std::abs(seg.get_normal().norm() - 1) < 1e-9 and seg.get_plane_d() >= 0, "normal ", show(seg.get_normal().transpose()), " d ", seg.get_plane_d());
    const double angle = ref.angle_error();
    // the side of the camera is not defined for a plane that goes through it
    if (angle < 0.05 and static_cast<double>(ref.d) > 2 * angle * ref.range)
    {
        const vector3 n = ref.normal.cast<double>();
        PBT_CHECK(c, cat(what, "-normal"), (seg.get_normal() - n).norm() <= angle + 1e-9, "got ", show(seg.get_normal().transpose()), " expected ", show(n.transpose()),
                  " tolerance ", angle);
        PBT_CHECK(c, cat(what, "-d"), std::abs(seg.get_plane_d() - static_cast<double>(ref.d)) <= angle * ref.range + 1e-6, "got ", seg.get_plane_d(), " expected ",
                  static_cast<double>(ref.d));
        const vector3 center = -n * static_cast<double>(ref.d);
        PBT_CHECK(c, cat(what, "-center"), near(vector3(seg.get_center()), center, 0, 3 * angle * ref.range + 1e-6), "");
        const vector3 p = n * 100;
        PBT_CHECK(c, cat(what, "-distance"), std::abs(seg.get_point_distance(p) - (100 + static_cast<double>(ref.d))) <= angle * (ref.range + 200) + 1e-6, "");
    }
    // the point cloud covariance is the inverse of the (not centered) scatter matrix
    ml3 scatter = ml3::Zero();
    for (const vl3& p: ref.points)
        scatter += p * p.transpose();
    Eigen::SelfAdjointEigenSolver<ml3> es(scatter);
    const double condition = static_cast<double>(es.eigenvalues()[2] / es.eigenvalues()[0]);
    if (condition < 1e5 and condition > 0)
    {
        const matrix33 expected = scatter.inverse().cast<double>();
        const matrix33 got = seg.get_point_cloud_covariance();
        PBT_CHECK(c, cat(what, "-covariance"), near(got, expected, 1e-6 * condition, 0), "got ", show(got), " expected ", show(expected));
    }
}

static void run(Source& s, Ctx& c)
{
    const uint size = s.draw(4) == 0 ? static_cast<uint>(2 * s.integer(5, 12)) : 20;
    const uint pts = size * size;
    Plane_Segment::set_static_members(size, pts);
    const double f = s.pick(std::vector<double> {550, 300, 900});
    const uint cells = static_cast<uint>(1 + s.draw(4));
    matrixf cloud = matrixf::Zero(static_cast<long>(cells * pts), 3);

    // the main surface
    const double z0 = s.draw(4) == 0 ? s.pick(std::vector<double> {512, 1024, 2048, 1000, 4096, 300}) : std::round(s.real(300, 5900));
    const double tilt = s.draw(4) == 0 ? 0 : s.real(0, 1.1), turn = s.real(0, 2 * M_PI);
    const vector3 n(sin(tilt) * cos(turn), sin(tilt) * sin(turn), -cos(tilt));
    const double curvature = s.draw(3) == 0 ? s.logreal(0.01, 10) : 0;
    const double noise = s.draw(3) == 0 ? s.logreal(0.01, 3) : 0; // in quantization units
    const bool integers = s.draw(2);
    const double holes = s.draw(3) == 0 ? s.real(0, 0.5) : 0;
    c.note("cell ", size, " focal ", f, " z0 ", z0, " tilt ", tilt, " turn ", turn, " curvature ", curvature, " noise ", noise, " integers ", integers, " holes ", holes);

    std::vector<Plane_Segment> segments(cells);
    std::vector<Pca> references(cells);
    std::vector<uint> planars;
    for (uint cell = 0; cell < cells; ++cell)
    {
        const Kind kind = s.draw(6) == 5 ? Step : Surface;
        const double u0 = s.sym(300), v0 = s.sym(200);
        const double stepAngle = s.real(0, 2 * M_PI), stepSign = s.draw(2) ? 1 : -1, stepFactor = s.real(8, 40);
        bool valid = true;
        matrixf z(static_cast<long>(size), static_cast<long>(size));
        Pca& ref = references[cell];
        // slope in pixels of the plane, from n.(p - p0) = 0 with p0 on the axis of the cell
        const vector3 ray0(u0 / f, v0 / f, 1);
        const vector3 p0 = ray0 * z0;
        uint count = 0;
        for (uint i = 0; i < size; ++i)
            for (uint j = 0; j < size; ++j)
            {
                const double du = j + 0.5 - size / 2.0, dv = i + 0.5 - size / 2.0;
                const vector3 ray((u0 + du) / f, (v0 + dv) / f, 1);
                const double den = n.dot(ray);
                double depth = std::abs(den) < 1e-3 ? 0 : n.dot(p0) / den;
                if (depth < 40 or depth > 6000)
                    valid = false;
                depth += curvature * quantization(z0) * (du * du + dv * dv) / (size * size);
                depth += noise * quantization(z0) * s.sym(1);
                if (kind == Step and du * cos(stepAngle) + dv * sin(stepAngle) > 0)
                    depth += stepSign * stepFactor * quantization(z0);
                if (integers)
                    depth = std::round(depth);
                if (holes > 0 and s.unit() < holes)
                    depth = 0;
                z(i, j) = static_cast<float>(depth);
                const long row = static_cast<long>(cell * pts + i * size + j);
                if (z(i, j) > 0)
                {
                    ++count;
                    cloud(row, 0) = static_cast<float>(ray.x() * z(i, j));
                    cloud(row, 1) = static_cast<float>(ray.y() * z(i, j));
                    cloud(row, 2) = z(i, j);
                    ref.add(cloud(row, 0), cloud(row, 1), cloud(row, 2));
                }
                else if (z(i, j) < 0)
                    valid = false;
            }
        if (not valid or ref.points.size() < 10)
        {
            // out of the sensor range: leave an empty cell
            cloud.block(cell * pts, 0, pts, 3).setZero();
            ref.points.clear();
            segments[cell].init_plane_segment(cloud, cell);
            PBT_CHECK(c, "empty", not segments[cell].is_planar(), "an empty cell is planar");
            continue;
        }
        ref.fit();
        // the continuity of the middle lines: certain when it holds (or not) for all the lines around the middle
        bool continuous = true, broken = false;
        const double q = quantization(static_cast<double>(z.maxCoeff()));
        for (const bool vertical: {false, true})
        {
            bool allBroken = true;
            for (uint k = size / 2 - 1; k <= size / 2; ++k)
            {
                double last = 0, jump = 0;
                for (uint i = 0; i < size; ++i)
                {
                    const double v = vertical ? z(i, k) : z(k, i);
                    if (v <= 0)
                        continue;
                    if (last > 0)
                        jump = std::max(jump, std::abs(v - last) / quantization(v));
                    else if (i > 1)
                        continuous = false; // missing start of the line: not decided here
                    last = v;
                }
                continuous = continuous and last > 0 and jump < 3.9;
                allBroken = allBroken and jump > 4.1 * q / quantization(z0);
            }
            broken = broken or (allBroken and kind == Step and holes <= 0 and noise < 0.3);
        }
        Plane_Segment& seg = segments[cell];
        seg.init_plane_segment(cloud, cell);
        const double threshold = std::pow(quantization(static_cast<double>(ref.mean.z())), 2);
        const double mse = static_cast<double>(ref.values[0]);
        c.note("cell ", cell, " valid ", count, "/", pts, " mse ", mse, " quantization^2 ", threshold, " continuous ", continuous, " broken ", broken);
        if (broken)
        {
            c.label("discontinuity");
            c.nontrivial();
            PBT_CHECK(c, "discontinuity", not seg.is_planar(), "a cell with a depth jump is planar");
        }
        else if (count < 0.68 * pts)
        {
            c.label("missing depth");
            c.nontrivial();
            PBT_CHECK(c, "missing-depth", not seg.is_planar(), "a cell with ", count, " depths of ", pts, " is planar");
        }
        else if (mse > 1.1 * threshold + ref.cov_error())
        {
            c.label("not flat");
            c.nontrivial();
            PBT_CHECK(c, "not-flat", not seg.is_planar(), "mse ", mse, " over ", threshold);
        }
        else if (continuous and count > 0.72 * pts and mse < 0.9 * threshold - ref.cov_error())
        {
            c.label("flat");
            c.nontrivial();
            PBT_CHECK(c, "flat", seg.is_planar(), "a flat cell is not planar, mse ", mse, " of ", threshold);
        }
        if (seg.is_planar())
        {
            check_fit(c, seg, ref, "cell");
            if (static_cast<double>(ref.values[0]) > 10 * ref.cov_error())
            {
                const double score = static_cast<double>(ref.values[1] / ref.values[0]);
                PBT_CHECK(c, "score", pbt::close(seg.get_score(), score, 0.3, 1e-6), "got ", seg.get_score(), " expected ", score);
            }
            planars.push_back(cell);
        }
        // initialized again: no memory of the first time
        const Plane_Segment copy(seg);
        PBT_CHECK(c, "copy", copy.get_point_count() == seg.get_point_count() and near(copy.get_parametrization(), seg.get_parametrization(), 1e-12, 0) and copy.get_MSE() == seg.get_MSE() and
                                     copy.is_planar() == seg.is_planar() and copy.get_score() == seg.get_score() and vector3(copy.get_centroid()) == vector3(seg.get_centroid()),
                  "");
        seg.init_plane_segment(cloud, cell);
        PBT_CHECK(c, "again", copy.get_point_count() == seg.get_point_count() and near(copy.get_parametrization(), seg.get_parametrization(), 1e-12, 0) and copy.is_planar() == seg.is_planar(), "");
    }
    if (planars.size() < 2)
        return;
    c.label("merge");
    // merge conditions
    for (const uint a: planars)
        for (const uint b: planars)
        {
            const double maxDistance = s.real(1, 300);
            const Pca &ra = references[a], &rb = references[b];
            const double error = ra.angle_error() + rb.angle_error();
            if (error > 0.02)
                continue;
            if (static_cast<double>(std::min(ra.d, rb.d)) < 0.05 * ra.range)
                continue;
            const double cosine = static_cast<double>(ra.normal.dot(rb.normal)), limit = cos(18 * M_PI / 180);
            const double distance = std::abs(static_cast<double>(ra.normal.dot(rb.mean) + ra.d));
            const double de = error * (ra.range + rb.range) + 1e-3;
            PBT_CHECK(c, "cosine", std::abs(segments[a].get_cos_angle(segments[b]) - cosine) < 2 * error + 1e-9, "");
            if (std::abs(cosine - limit) > 2 * error + 1e-6 and std::abs(distance - maxDistance) > de)
                PBT_CHECK(c, "can-be-merged", segments[a].can_be_merged(segments[b], maxDistance) == (cosine > limit and distance < maxDistance), "cosine ", cosine, " distance ", distance,
                          " maximum ", maxDistance);
        }
    // merge in any order
    Plane_Segment merged(segments[planars[0]]);
    Pca all = references[planars[0]];
    for (size_t i = planars.size(); i > 2; --i)
        std::swap(planars[i - 1], planars[1 + s.draw(i - 1)]);
    for (size_t i = 1; i < planars.size(); ++i)
    {
        merged.expand_segment(segments[planars[i]]);
        all.add(references[planars[i]]);
        if (s.draw(2))
            merged.fit_plane();
    }
    merged.fit_plane();
    all.fit();
    PBT_CHECK(c, "merged-planar", merged.is_planar(), "the fit of a merged plane failed");
    check_fit(c, merged, all, "merged");
    merged.clear_plane_parameters();
    PBT_CHECK(c, "clear", not merged.is_planar() and merged.get_point_count() == 0, "");
}

PBT_MAIN((pbt::Property {.id = "P16",
                         .rule = "depth cells of planes (any tilt and distance, exact, integer or noisy depths), curved surfaces, steps and missing "
                                 "depths; non-trivial: the expected decision is certain (discontinuity, missing depth, flat or not flat)",
                         .run = run}))
