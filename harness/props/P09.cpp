// needs: src/coordinates/*.cpp src/utils/*.cpp src/parameters.cpp src/outputs/logger.cpp src/tracking/plane_with_tracking.cpp src/features/primitives/plane_segment.cpp src/features/primitives/cylinder_segment.cpp src/features/primitives/shape_primitives.cpp third_party/concave_fitting.cpp
#include "geometry2d.hpp"
#include "tracking/plane_with_tracking.hpp"
using namespace h;
using features::primitives::Plane_Segment;
using ml4 = Eigen::Matrix<long double, 4, 4>;
using vl4 = Eigen::Matrix<long double, 4, 1>;

static matrix44 invalid_covariance(Source& s, const matrix44& good)
{
    matrix44 m = good;
    const auto i = static_cast<long>(s.draw(4));
    switch (s.draw(4))
    {
        case 0:
            m(i, i) = std::numeric_limits<double>::quiet_NaN();
            break;
        case 1:
            m(i, i) = std::numeric_limits<double>::infinity();
            break;
        case 2:
            m(i, i) = -m(i, i);
            break;
        default:
            m(i, (i + 1) % 4) += m.norm();
    }
    return m;
}

static Poly in_frame(const std::vector<vector3>& points, const utils::Polygon& frame)
{
    Poly r;
    for (const vector3& v: points)
        r.emplace_back(frame.get_x_axis().dot(v - frame.get_center()), frame.get_y_axis().dot(v - frame.get_center()));
    return r;
}

// a detected plane: a patch of depth points and a boundary
struct Detection
{
    vector3 n;
    double d = 0;
    std::unique_ptr<features::primitives::Plane> plane;
    std::unique_ptr<CameraPolygon> polygon;
    std::vector<vector3> vertices;
};

static Plane_Segment segment_of(const vector3& n, double d)
{
    Plane_Segment::set_static_members(20, 400);
    // the patch in front of the camera
    matrixf cloud = matrixf::Zero(400, 3);
    for (int i = 0; i < 20; ++i)
        for (int j = 0; j < 20; ++j)
        {
            const vector3 ray((j - 9.5) / 550, (i - 9.5) / 550, 1);
            cloud.row(i * 20 + j) = (ray * (-d / n.dot(ray))).transpose().cast<float>();
        }
    Plane_Segment seg;
    seg.init_plane_segment(cloud, 0);
    return seg;
}

static bool detect(Source& s, double size, const vector3& n, double d, Detection& out)
{
    out.n = n;
    out.d = d;
    const Plane_Segment seg = segment_of(n, d);
    if (not seg.is_planar())
        return false;
    vector3 ux = n.unitOrthogonal();
    ux = (Eigen::AngleAxisd(s.real(0, 2 * M_PI), n) * ux).normalized();
    const vector3 uy = n.cross(ux).normalized();
    const Poly shape = translated(gen_convex(s, size), vector2(s.sym(size), s.sym(size)));
    out.polygon = std::make_unique<CameraPolygon>(to_boost(shape), ux, uy, vector3(-n * d));
    for (const vector2& v: shape)
        out.vertices.push_back(-n * d + v.x() * ux + v.y() * uy);
    out.plane = std::make_unique<features::primitives::Plane>(seg, *out.polygon);
    return true;
}

static vector3 gen_facing(Source& s)
{
    const double tilt = s.draw(4) == 0 ? 0 : s.real(0, 1.1), turn = s.real(0, 2 * M_PI);
    return vector3(sin(tilt) * cos(turn), sin(tilt) * sin(turn), -cos(tilt));
}

static void similarity(Source& s, Ctx& c)
{
    c.label("similarity");
    Detection a, b;
    const vector3 n = gen_facing(s);
    const vector3 m = (gen_small_quaternion(s, s.draw(2) ? 0.7 : 3.1) * n).normalized();
    const double d = s.real(300, 2000), e = d + s.sym(300);
    if (not detect(s, 300, n, d, a))
        return;
    const auto& plane = *a.plane;
    const vector3 pn = plane.get_normal();
    PBT_CHECK(c, "plane", near(pn, n, 0, 1e-3) and std::abs(plane.get_d() - d) < 5 and near(vector3(plane.get_center()), vector3(-pn * plane.get_d()), 1e-9, 1e-6) and
                                  near(plane.get_parametrization().get_parametrization(), vector4(pn.x(), pn.y(), pn.z(), plane.get_d()), 1e-12, 0),
              "normal ", show(pn.transpose()), " d ", plane.get_d());
    const double cosine = pn.dot(m), limit = cos(20 * M_PI / 180);
    const PlaneCameraCoordinates other(m, e);
    if (std::abs(std::abs(cosine) - limit) > 1e-6)
    {
        c.nontrivial();
        PBT_CHECK(c, "normal-similar", plane.is_normal_similar(other) == (std::abs(cosine) > limit), "angle ", acos(cosine) * 180 / M_PI);
    }
    const double gap = std::abs(plane.get_d() - e);
    if (std::abs(gap - 100) > 1e-6)
        PBT_CHECK(c, "distance-similar", plane.is_distance_similar(other) == (gap < 100), "gap ", gap);
    if (m.z() < -0.4 and e > 200 and detect(s, 300, m, e, b))
    {
        const double cosB = pn.dot(b.plane->get_normal()), gapB = std::abs(plane.get_d() - b.plane->get_d());
        if (std::abs(cosB - limit) > 1e-6 and std::abs(gapB - 100) > 1e-6)
            PBT_CHECK(c, "similar-planes",
                      plane.is_normal_similar(*b.plane) == (cosB > limit) and b.plane->is_normal_similar(plane) == (cosB > limit) and
                              plane.is_distance_similar(*b.plane) == (gapB < 100) and b.plane->is_distance_similar(plane) == (gapB < 100),
                      "cosine ", cosB, " gap ", gapB);
    }
}

static void run(Source& s, Ctx& c)
{
    if (s.draw(8) == 0)
        return similarity(s, c);
    const double size = s.logreal(100, 2000);
    // the true plane of the world
    const vector3 nw = gen_direction(s);
    const double dw = s.sym(4000);
    const double noiseAngle = s.draw(3) == 0 ? 0 : s.logreal(1e-3, 0.2), noiseDistance = s.draw(3) == 0 ? 0 : s.logreal(0.1, 50);

    const auto observe = [&](Detection& o, CameraToWorldMatrix& c2w, PlaneWorldCoordinates& world) {
        const vector3 nc = gen_facing(s);
        const double dc = s.real(300, 2000);
        if (not detect(s, size, nc, dc, o))
            return false;
        // the camera that sees this plane where the world plane is (with some errors)
        const vector3 target = reference_axes().transpose() * (gen_small_quaternion(s, noiseAngle) * nw);
        const double targetD = dw + s.sym(noiseDistance);
        const quaternion q = (quaternion(Eigen::AngleAxisd(s.real(0, 2 * M_PI), target)) * quaternion::FromTwoVectors(nc, target)).normalized();
        vector3 t = gen_vector(s, size);
        t -= target * target.dot(t);
        t += target * (dc - targetD);
        // plane n.p + d = 0 becomes (R n).p' + d - (R n).t = 0
        c2w = utils::compute_camera_to_world_transform(q, t);
        world = PlaneCameraCoordinates(nc, dc).to_world_coordinates(utils::compute_plane_camera_to_world_matrix(c2w));
        PBT_CHECK(c, "world-plane", near(world.get_normal(), vector3(reference_axes() * (q * nc)), 0, 1e-7) and pbt::close(world.get_d(), dc - (q * nc).dot(t), 1e-9, 1e-6), "normal ",
                  show(world.get_normal().transpose()), " d ", world.get_d(), " expected ", targetD);
        return true;
    };
    Detection first;
    CameraToWorldMatrix c2w;
    PlaneWorldCoordinates world;
    if (not observe(first, c2w, world))
        return;
    tracking::Plane plane;
    PBT_CHECK(c, "new", plane.get_covariance().isZero(), "");
    const double lo = s.draw(2) ? 1e-2 : 1e-4;
    plane._parametrization = world;
    plane._covariance = gen_spd<4>(s, lo, 1e4 * lo);
    plane._boundaryPolygon = first.polygon->to_world_space(c2w);
    if (s.draw(2))
        plane = tracking::Plane(plane);

    const int steps = static_cast<int>(1 + s.draw(6));
    for (int k = 0; k < steps; ++k)
    {
        Detection det;
        if (not observe(det, c2w, world))
            continue;
        const matrix44 r = gen_spd<4>(s, lo, 1e4 * lo);
        const vector4 before = plane.get_parametrization().get_parametrization();
        const matrix44 p = plane.get_covariance();
        const WorldPolygon oldPolygon = plane.get_boundary_polygon();
        const std::vector<vector3> oldVertices = oldPolygon.get_unprojected_boundary();
        c.note("plane ", show(before.transpose()), " detected ", show(world.get_parametrization().transpose()));
        if (s.draw(5) == 0)
        {
            c.label("invalid covariance");
            const double score = plane.track(c2w, *det.plane, world, invalid_covariance(s, r));
            PBT_CHECK(c, "refusal", score == 0 and plane.get_parametrization().get_parametrization() == before and plane.get_covariance() == p and
                                            plane.get_boundary_polygon().get_center() == oldPolygon.get_center() and
                                            pbt::close(plane.get_boundary_polygon().get_area(), oldPolygon.get_area(), 1e-12, 0),
                      "an update with an invalid covariance changed the plane");
            continue;
        }
        const double score = plane.track(c2w, *det.plane, world, r);
        c.nontrivial();
        // reference update
        const ml4 predicted = p.cast<long double>() + 1e-6L * ml4::Identity();
        const ml4 gain = predicted * (predicted + r.cast<long double>()).fullPivLu().inverse();
        const vl4 x = before.cast<long double>() + gain * (world.get_parametrization() - before).cast<long double>();
        const ml4 a = ml4::Identity() - gain;
        const matrix44 cov = (a * predicted * a.transpose() + gain * r.cast<long double>() * gain.transpose()).cast<double>();
        vector4 expected = x.cast<double>();
        if (expected.head<3>().norm() < 0.1)
            return; // contradictory detections
        expected.head<3>().normalize();
        const vector4 after = plane.get_parametrization().get_parametrization();
        PBT_CHECK(c, "parameters", near(after, expected, 1e-8, 1e-8) and near(after.head<3>().eval(), expected.head<3>().eval(), 0, 1e-6), "got ", show(after.transpose()), " expected ",
                  show(expected.transpose()));
        PBT_CHECK(c, "normal", std::abs(after.head<3>().norm() - 1) < 1e-9, "");
        PBT_CHECK(c, "covariance", near(plane.get_covariance(), cov, 1e-7, 1e-12), "got ", show(plane.get_covariance()), " expected ", show(cov));
        PBT_CHECK(c, "score", pbt::close(score, (expected - before).norm(), 1e-5, 1e-6), "got ", score, " expected ", (expected - before).norm());
        // the uncertainty is reduced by each detection
        const matrix44 reduction = p + 1e-6 * matrix44::Identity() - plane.get_covariance();
        Eigen::SelfAdjointEigenSolver<matrix44> es(0.5 * (reduction + reduction.transpose()));
        PBT_CHECK(c, "uncertainty", es.eigenvalues()[0] > -1e-9 * p.norm(), "");

        // the boundary is in the new plane, and covers the known and the detected boundaries
        const WorldPolygon polygon = plane.get_boundary_polygon();
        const vector3 n = after.head<3>();
        PBT_CHECK(c, "polygon-plane", near(polygon.get_normal(), n, 0, 1e-6) and near(polygon.get_center(), vector3(-n * after[3]), 1e-9, 1e-6), "normal ",
                  show(polygon.get_normal().transpose()), " center ", show(polygon.get_center().transpose()));
        for (const vector3& v: polygon.get_unprojected_boundary())
            PBT_CHECK(c, "polygon-plane", std::abs(n.dot(v) + after[3]) < 1e-6 * (1 + v.norm()), "a vertex is out of the plane");
        const matrix33 rotation = c2w.block<3, 3>(0, 0);
        const vector3 position = c2w.block<3, 1>(0, 3);
        std::vector<vector3> newVertices;
        for (const vector3& v: det.vertices)
            newVertices.push_back(rotation * v + position);
        const Poly known = in_frame(oldVertices, polygon), detected = in_frame(newVertices, polygon);
        if (k == 0)
        {
            // two convex shapes (projections of convex shapes)
            const double inter = poly_area(clip_convex(known, detected)), uni = poly_area(known) + poly_area(detected) - inter;
            if (poly_area(known) < 100 or poly_area(detected) < 100 or inter < 0.01 * std::min(poly_area(known), poly_area(detected)))
                continue;
            c.label("merged boundary");
            const double threshold = std::max(uni / 1e5, 10.0) * 1.05 + 1e-3;
            for (int i = 0; i < 10; ++i)
            {
                const Poly& near = s.draw(2) ? known : detected;
                const vector2 point = near[s.draw(near.size())] * s.real(0, 1.3) + vector2(s.sym(size), s.sym(size));
                if (std::min(boundary_distance(point, known), boundary_distance(point, detected)) <= threshold)
                    continue;
                const bool inside = point_inside(point, known) or point_inside(point, detected);
                c.label(inside ? "inner point" : "outer point");
                PBT_CHECK(c, "polygon", polygon.contains(point) == inside, "the point ", show(point.transpose()), " is ", inside ? "inside" : "out of", " the boundaries");
            }
        }
        PBT_CHECK(c, "polygon-area", polygon.get_area() > 0 and pbt::close(polygon.get_area(), polygon.area(), 1e-9, 0), "");
    }
}

PBT_MAIN((pbt::Property {.id = "P09",
                         .rule = "histories of up to 6 detections of one world plane seen by cameras at any pose, with angle and distance errors, any covariance, "
                                 "some of them invalid; non-trivial: at least one valid update (or a similarity decision away from its limit)",
                         .setup = camera_setup,
                         .run = run,
                         .describeSetup = describe_camera}))
