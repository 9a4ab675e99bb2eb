// needs: src/coordinates/*.cpp src/utils/*.cpp src/parameters.cpp src/outputs/logger.cpp third_party/concave_fitting.cpp
#include "common.hpp"
#include "tracking/kalman_filter.hpp"
using namespace h;

using MatL = Eigen::Matrix<long double, Eigen::Dynamic, Eigen::Dynamic>;
template<int R, int C> using Mat = Eigen::Matrix<double, R, C>;

// reference filter, in extended precision and Joseph form
struct Model
{
    MatL f, q, p, hm, x, predicted;

    void update(const MatL& z, const MatL& rl)
    {
        const MatL xp = f * x;
        predicted = f * p * f.transpose() + q;
        const MatL si = hm * predicted * hm.transpose() + rl;
        const MatL k = predicted * hm.transpose() * Eigen::FullPivLU<MatL>(si).inverse();
        x = xp + k * (z - hm * xp);
        const MatL a = MatL::Identity(f.rows(), f.rows()) - k * hm;
        p = a * predicted * a.transpose() + k * rl * k.transpose();
    }
};
static double smallest_eigenvalue(const matrixd& m) { return Eigen::SelfAdjointEigenSolver<matrixd>(m, Eigen::EigenvaluesOnly).eigenvalues().minCoeff(); }

template<int N> Mat<N, N> invalid_covariance(Source& s, const Mat<N, N>& good)
{
    Mat<N, N> m = good;
    const auto i = static_cast<long>(s.draw(N));
    switch (s.draw(4))
    {
        case 0:
            m(i, i) = std::numeric_limits<double>::quiet_NaN();
            break;
        case 1:
            m(i, i) = std::numeric_limits<double>::infinity();
            break;
        case 2:
            m(i, i) = -m(i, i);
            break;
        default:
            if (N > 1)
                m(0, N - 1) += m.norm();
            else
                m(0, 0) = -1;
    }
    return m;
}

template<int N> std::string show_all(const Mat<N, 1>& x, const Mat<N, N>& p)
{
    return cat("state ", show(x.transpose()), " covariance ", show(p));
}

template<int N, int M> void history(Source& s, Ctx& c)
{
    c.label(cat(N, " states ", M, " outputs"));
    // dynamics: identity, or a rotation like well conditioned matrix
    Mat<N, N> f = Mat<N, N>::Identity();
    const auto genDynamics = [&]() {
        Mat<N, N> d = Mat<N, N>::Identity() * s.real(0.7, 1.2);
        for (int i = 0; i < N; ++i)
            for (int j = 0; j < N; ++j)
                d(i, j) += s.sym(0.3 / N);
        return d;
    };
    if (s.draw(3))
        f = genDynamics();
    Mat<M, N> hm = Mat<M, N>::Identity();
    if (s.draw(3))
        for (int i = 0; i < M; ++i)
            for (int j = 0; j < N; ++j)
                hm(i, j) += s.sym(0.5 / N);
    Mat<N, N> q = Mat<N, N>::Zero();
    if (s.draw(4))
        q = gen_spd<N>(s, 1e-4, 10);

    tracking::KalmanFilter<N, M> filter(f, hm, q);
    tracking::SharedKalmanFilter<N, M> shared(f, hm, q);
    PBT_CHECK(c, "not-initialized", not filter.is_initialized(), "");
    const Mat<M, M> anyR = Mat<M, M>::Identity();
    if (s.draw(4) == 0)
    {
        bool refused = false;
        try
        {
            filter.update(Mat<M, 1>::Zero(), anyR);
        }
        catch (const std::logic_error&)
        {
            refused = true;
        }
        PBT_CHECK(c, "not-initialized", refused, "an update before the initialization was accepted");
    }
    Model model;
    model.f = f.template cast<long double>();
    model.hm = hm.template cast<long double>();
    model.q = q.template cast<long double>();
    const double range = s.logreal(0.1, 1e4);
    Mat<N, 1> x;
    const auto init = [&]() {
        for (int i = 0; i < N; ++i)
            x[i] = s.sym(range);
        const Mat<N, N> p = gen_spd<N>(s, 0.1, 100);
        filter.init(p, x);
        model.x = x.template cast<long double>();
        model.p = p.template cast<long double>();
        PBT_CHECK(c, "init", filter.is_initialized() and filter.get_state() == x and filter.get_state_covariance() == p, "");
    };
    init();
    const int steps = static_cast<int>(1 + s.draw(12));
    int updates = 0;
    for (int k = 0; k < steps; ++k)
    {
        const uint64_t op = s.draw(12);
        Mat<M, 1> z;
        for (int i = 0; i < M; ++i)
            z[i] = s.sym(range);
        const Mat<M, M> r = gen_spd<M>(s, 0.1, 100);
        if (op == 0)
        {
            const Mat<N, 1> x0 = filter.get_state();
            const Mat<N, N> p0 = filter.get_state_covariance();
            const Mat<M, M> bad = invalid_covariance<M>(s, r);
            bool refused = false;
            try
            {
                filter.update(z, bad);
            }
            catch (const std::invalid_argument&)
            {
                refused = true;
            }
            PBT_CHECK(c, "invalid-measurement", refused and filter.get_state() == x0 and filter.get_state_covariance() == p0,
                      "measurement covariance ", show(bad));
            refused = false;
            try
            {
                (void)shared.get_new_state(x0, invalid_covariance<N>(s, p0), z, r);
            }
            catch (const std::invalid_argument&)
            {
                refused = true;
            }
            PBT_CHECK(c, "invalid-state", refused, "");
            continue;
        }
        if (op == 1)
        {
            c.label("re-initialized");
            init();
            continue;
        }
        if constexpr (N == M)
        {
            if (op == 2 or op == 3)
            {
                c.label("dynamics changed");
                f = genDynamics();
                model.f = f.template cast<long double>();
                shared._systemDynamics = f;
                const auto pure = shared.get_new_state(filter.get_state(), filter.get_state_covariance(), z, r);
                filter.update(z, r, f);
                PBT_CHECK(c, "update-with-dynamics", near(filter.get_state(), pure.first, 1e-12, 1e-12), "");
                model.update(z.template cast<long double>(), r.template cast<long double>());
                ++updates;
                goto compare;
            }
        }
        {
            const auto pure = shared.get_new_state(filter.get_state(), filter.get_state_covariance(), z, r);
            filter.update(z, r);
            PBT_CHECK(c, "shared", near(filter.get_state(), pure.first, 1e-12, 1e-12) and near(filter.get_state_covariance(), pure.second, 1e-12, 1e-12), "");
            model.update(z.template cast<long double>(), r.template cast<long double>());
            ++updates;
        }
    compare:
        const Mat<N, 1> gx = filter.get_state();
        const Mat<N, N> gp = filter.get_state_covariance();
        const Mat<N, 1> rx = model.x.template cast<double>();
        const Mat<N, N> rp = model.p.template cast<double>();
        c.note("step ", k, " measured ", show(z.transpose()), " ", show_all<N>(gx, gp));
        PBT_CHECK(c, "state", near(gx, rx, 1e-5, 1e-5 * range), "got ", show(gx.transpose()), " expected ", show(rx.transpose()));
        PBT_CHECK(c, "covariance", near(gp, rp, 1e-5, 1e-9), "got ", show(gp), " expected ", show(rp));
        PBT_CHECK(c, "symmetric", (gp - gp.transpose()).cwiseAbs().maxCoeff() <= 1e-9 * gp.norm(), show(gp));
        // a measurement never adds uncertainty
        const Mat<N, N> gain = model.predicted.template cast<double>() - gp;
        PBT_CHECK(c, "measurement-informs", smallest_eigenvalue(gain) >= -1e-7 * gp.norm(), "");
        PBT_CHECK(c, "positive", smallest_eigenvalue(gp) >= -1e-9 * gp.norm(), "");
    }
    if (updates >= 2)
        c.nontrivial();
}

// independent components, some of them known exactly and measured exactly: the innovation is singular
template<int N> void singular(Source& s, Ctx& c)
{
    c.label("singular innovation");
    Mat<N, N> p = Mat<N, N>::Zero(), r = Mat<N, N>::Zero();
    Mat<N, 1> x, z;
    int zeros = 0;
    for (int i = 0; i < N; ++i)
    {
        x[i] = s.sym(100);
        z[i] = s.sym(100);
        // an uncertain component is never measured exactly: its variance would be 0 plus or minus a rounding error
        if (s.draw(2))
            r(i, i) = s.real(0.5, 50);
        if (r(i, i) > 0 and s.draw(2))
            p(i, i) = s.real(0.5, 50);
        if (p(i, i) + r(i, i) == 0)
            ++zeros;
    }
    if (zeros)
        c.nontrivial();
    tracking::KalmanFilter<N, N> filter(Mat<N, N>::Identity(), Mat<N, N>::Identity(), Mat<N, N>::Zero());
    filter.init(p, x);
    filter.update(z, r);
    for (int i = 0; i < N; ++i)
    {
        const double k = p(i, i) + r(i, i) > 0 ? p(i, i) / (p(i, i) + r(i, i)) : 0;
        PBT_CHECK(c, "singular", pbt::close(filter.get_state()[i], x[i] + k * (z[i] - x[i]), 1e-9, 1e-9) and
                                         pbt::close(filter.get_state_covariance()(i, i), (1 - k) * p(i, i), 1e-9, 1e-9),
                  "component ", i, " state ", x[i], " variance ", p(i, i), " measured ", z[i], " variance ", r(i, i), " result ",
                  filter.get_state()[i], " variance ", filter.get_state_covariance()(i, i));
    }
}

// some directions are well known and others not at all, as for the planes: the updates are accepted and stay valid
template<int N> void conditioning(Source& s, Ctx& c)
{
    c.label("badly conditioned");
    const matrixd basis = gen_spd<N>(s, 1, 2);
    const Eigen::SelfAdjointEigenSolver<matrixd> axes(basis);
    const auto gen = [&](double scale) {
        const Mat<N, N> u = axes.eigenvectors();
        Mat<N, 1> d;
        for (int i = 0; i < N; ++i)
            d[i] = s.boolean() ? s.logreal(1e-3, 1) : s.logreal(1, scale);
        const Mat<N, N> m = u * d.asDiagonal() * u.transpose();
        return Mat<N, N>(0.5 * (m + m.transpose()) + 1e-6 * d.maxCoeff() * 1e-6 * Mat<N, N>::Identity());
    };
    tracking::KalmanFilter<N, N> filter(Mat<N, N>::Identity(), Mat<N, N>::Identity(), Mat<N, N>::Identity() * 1e-6);
    const double scale = s.logreal(10, 1e9);
    const Mat<N, N> start = gen(scale);
    if (not utils::is_covariance_valid(start))
        return;
    filter.init(start, Mat<N, 1>::Zero());
    c.note("start ", show(start));
    c.nontrivial();
    const int steps = static_cast<int>(1 + s.draw(10));
    for (int k = 0; k < steps; ++k)
    {
        const Mat<N, N> r = s.boolean() ? Mat<N, N>(start * s.real(0.8, 1.2)) : gen(scale);
        if (not utils::is_covariance_valid(r))
            continue;
        Mat<N, 1> z;
        for (int i = 0; i < N; ++i)
            z[i] = s.sym(1);
        std::string what;
        bool isRefused = false;
        const Mat<N, N> before = filter.get_state_covariance();
        try
        {
            filter.update(z, r);
        }
        catch (const std::exception& ex)
        {
            isRefused = true;
            what = ex.what();
        }
        PBT_CHECK(c, "conditioning", not isRefused and filter.get_state().allFinite() and utils::is_covariance_valid(filter.get_state_covariance()), "update ", k, " with ", show(r), ": ",
                  what);
        const Mat<N, N> gain = before + Mat<N, N>::Identity() * 1e-6 - filter.get_state_covariance();
        PBT_CHECK(c, "conditioning-informs", smallest_eigenvalue(gain) >= -1e-5 * before.norm(), "update ", k, " with ", show(r));
    }
}

static void run(Source& s, Ctx& c)
{
    switch (s.draw(10))
    {
        case 0:
            return history<1, 1>(s, c);
        case 1:
            return history<2, 1>(s, c);
        case 2:
        case 3:
            return history<3, 3>(s, c);
        case 4:
            return history<4, 4>(s, c);
        case 5:
        case 6:
            return history<6, 3>(s, c);
        case 7:
            return s.boolean() ? singular<3>(s, c) : singular<4>(s, c);
        case 8:
            return conditioning<3>(s, c);
        default:
            return conditioning<4>(s, c);
    }
}

PBT_MAIN((pbt::Property {.id = "P06",
                         .rule = "filters of 1 to 6 states and 1 to 4 outputs with generated dynamics, outputs and noises, driven by "
                                 "histories of updates, invalid measurements, initializations and dynamics changes; non-trivial: at "
                                 "least two accepted updates, an exactly singular innovation, or badly conditioned covariances",
                         .run = run}))
