// Shared generators and helpers of the property harnesses
#pragma once
#include "pbt.hpp"
#include "parameters.hpp"
#include "types.hpp"
#include "utils/camera_transformation.hpp"
#include "utils/random.hpp"

#include <opencv2/core.hpp>
#include <tbb/global_control.h>

#include <memory>

namespace h {
using namespace rgbd_slam;
using pbt::Ctx;
using pbt::Source;
using pbt::cat;

// The camera configuration of this process, as written in the configuration file
struct Camera
{
    int w1 = 640, h1 = 480, w2 = 640, h2 = 480;
    double fx1 = 550, fy1 = 550, cx1 = 320, cy1 = 240;
    double fx2 = 550, fy2 = 550, cx2 = 320, cy2 = 240;
    double tx = 0, ty = 0, tz = 0, rx = 0, ry = 0, rz = 0;

    std::string str() const
    {
        return cat("camera1 ", w1, "x", h1, " f=(", fx1, ",", fy1, ") c=(", cx1, ",", cy1, ") camera2 ", w2, "x", h2,
                   " f=(", fx2, ",", fy2, ") c=(", cx2, ",", cy2, ") offset t=(", tx, ",", ty, ",", tz, ") r=(", rx, ",",
                   ry, ",", rz, ")");
    }
};
inline Camera& camera()
{
    static Camera c;
    return c;
}

inline std::string num(double v)
{
    char b[64];
    snprintf(b, sizeof(b), "%.17g", v);
    std::string s = b;
    if (s.find_first_of(".en") == std::string::npos)
        s += ".0";
    return s;
}

inline std::string to_yaml(const Camera& c)
{
    std::ostringstream o;
    o << "%YAML:1.0\n---\n";
    o << "camera_1_size_x: " << c.w1 << "\ncamera_1_size_y: " << c.h1 << "\n";
    o << "camera_1_focal_x: " << num(c.fx1) << "\ncamera_1_focal_y: " << num(c.fy1) << "\n";
    o << "camera_1_center_x: " << num(c.cx1) << "\ncamera_1_center_y: " << num(c.cy1) << "\n";
    o << "camera_2_size_x: " << c.w2 << "\ncamera_2_size_y: " << c.h2 << "\n";
    o << "camera_2_focal_x: " << num(c.fx2) << "\ncamera_2_focal_y: " << num(c.fy2) << "\n";
    o << "camera_2_center_x: " << num(c.cx2) << "\ncamera_2_center_y: " << num(c.cy2) << "\n";
    o << "camera_2_translation_offset_x: " << num(c.tx) << "\ncamera_2_translation_offset_y: " << num(c.ty)
      << "\ncamera_2_translation_offset_z: " << num(c.tz) << "\n";
    o << "camera_2_rotation_offset_x: " << num(c.rx) << "\ncamera_2_rotation_offset_y: " << num(c.ry)
      << "\ncamera_2_rotation_offset_z: " << num(c.rz) << "\n";
    return o.str();
}

// no parallelism inside a worker: the engine runs several workers, and the results must not depend on schedules
inline void sequential()
{
    static tbb::global_control control(tbb::global_control::max_allowed_parallelism, 1);
    cv::setNumThreads(1);
}

inline void load_camera(const Camera& c)
{
    camera() = c;
    {
        std::ofstream f("camera.yaml");
        f << to_yaml(c);
    }
    if (not Parameters::parse_file("camera.yaml"))
    {
        fprintf(stderr, "the camera configuration was refused\n");
        abort();
    }
    sequential();
}

// default camera first, then any valid one. The two cameras are the same here
inline Camera gen_camera(Source& s)
{
    Camera c;
    if (s.draw(4) == 0)
        return c;
    const std::vector<std::pair<int, int>> sizes = {{640, 480}, {320, 240}, {848, 480}, {480, 640}, {200, 200}, {1280, 720}};
    const auto [w, hh] = s.pick(sizes);
    c.w1 = c.w2 = w;
    c.h1 = c.h2 = hh;
    c.fx1 = c.fx2 = std::round(w * s.real(0.5, 1.6) * 8) / 8;
    c.fy1 = c.fy2 = std::round(w * s.real(0.5, 1.6) * 8) / 8;
    c.cx1 = c.cx2 = std::round(w * s.real(0.35, 0.65) * 8) / 8;
    c.cy1 = c.cy2 = std::round(hh * s.real(0.35, 0.65) * 8) / 8;
    return c;
}

inline void camera_setup(Source& s) { load_camera(gen_camera(s)); }
inline std::string describe_camera() { return camera().str(); }

inline vector3 gen_direction(Source& s)
{
    if (s.draw(6) == 0)
    {
        vector3 v = vector3::Zero();
        v[static_cast<long>(s.draw(3))] = s.draw(2) ? -1.0 : 1.0;
        return v;
    }
    vector3 v(s.normal(), s.normal(), s.normal());
    if (v.norm() < 1e-6)
        return vector3::UnitZ();
    return v.normalized();
}

inline vector3 gen_vector(Source& s, double range) { return vector3(s.sym(range), s.sym(range), s.sym(range)); }

// uniform rotations, plus identity, quarter turns and small rotations
inline quaternion gen_quaternion(Source& s)
{
    const uint64_t mode = s.draw(6);
    if (mode == 0)
        return quaternion::Identity();
    const vector3 axis = gen_direction(s);
    double angle;
    if (mode == 1)
        angle = M_PI / 2 * static_cast<double>(s.draw(4));
    else if (mode == 2)
        angle = s.logreal(1e-8, 1e-2);
    else
        angle = s.real(0, 2 * M_PI);
    return quaternion(Eigen::AngleAxisd(angle, axis)).normalized();
}

// rotations of at most maxAngle
inline quaternion gen_small_quaternion(Source& s, double maxAngle)
{
    const vector3 axis = gen_direction(s);
    return quaternion(Eigen::AngleAxisd(s.real(0, maxAngle), axis)).normalized();
}

// symmetric positive definite matrix with eigen values in [lo, hi]
inline matrixd gen_spd_dynamic(Source& s, int n, double lo, double hi)
{
    matrixd a(n, n);
    for (int i = 0; i < n; ++i)
        for (int j = 0; j < n; ++j)
            a(i, j) = s.normal();
    matrixd q = Eigen::HouseholderQR<matrixd>(a).householderQ();
    if (s.draw(4) == 0)
        q = matrixd::Identity(n, n);
    vectorxd d(n);
    for (int i = 0; i < n; ++i)
        d[i] = s.logreal(lo, hi);
    const matrixd r = q * d.asDiagonal() * q.transpose();
    return 0.5 * (r + r.transpose());
}
template<int N> Eigen::Matrix<double, N, N> gen_spd(Source& s, double lo, double hi) { return gen_spd_dynamic(s, N, lo, hi); }

template<class A, class B> bool near(const A& a, const B& b, double rtol, double atol)
{
    const double na = a.norm(), nb = b.norm();
    const double d = (a - b).norm();
    return std::isfinite(d) and d <= atol + rtol * std::max(na, nb);
}

template<class M> std::string show(const M& m)
{
    static const Eigen::IOFormat f(12, Eigen::DontAlignCols, ", ", "; ", "", "", "[", "]");
    std::ostringstream o;
    o << m.format(f);
    return o.str();
}
inline std::string show(const quaternion& q) { return cat("q(w=", q.w(), ",x=", q.x(), ",y=", q.y(), ",z=", q.z(), ")"); }

// Reference of the axis convention: camera (x right, y down, z forward) to world (x forward, y left, z up)
inline matrix33 reference_axes()
{
    matrix33 m;
    m << 0, 0, 1, -1, 0, 0, 0, -1, 0;
    return m;
}

template<class F> bool throws(F f)
{
    try
    {
        f();
    }
    catch (const pbt::Failure&)
    {
        throw;
    }
    catch (const std::exception&)
    {
        return true;
    }
    return false;
}

} // namespace h
