// Numerical building blocks: time integrators (P14), quadrature and bases (P15),
// element and side operators (P16), fluxes and their derivatives (P17).
#include "../lib/batch.h"
#include "../lib/num_shim.h"
#include <algorithm>
#include <cmath>
#include <cstring>
using mcl::fmt;
using namespace num;
typedef long double L;

// ---- P14: time integrators ---------------------------------------------------------------------
static bool valid_explicit(int order, int n) {
    return (order == 1 && n == 1) || (order == 2 && n == 2) || (order == 3 && n >= 3 && n <= 8) || (order == 4 && n >= 5 && n <= 8);
}
struct Tableau {
    int n;
    M a;
    V b;
};
// reads the tableau off one step of a system that records which stage contributed
static std::string tableau(int order, int n, double dt, Tableau& t, V* times = nullptr) {
    Plan p{order, n, dt, 0., 1, V(n + 1, 0.), nullptr};
    p.q0[0] = 1;
    p.rhs   = [&](int s, const V&, double) {
        V r(n + 1, 0.);
        r[s + 1] = 1;
        return r;
    };
    Stepping s = explicit_steps(p);
    if (s.refused)
        return fmt("refused\torder %d with %d stages is refused", order, n);
    if ((int)s.stages != n || (int)s.order != order || s.dt != dt || (int)s.q.size() != n + 1)
        return fmt("stages\torder %d with %d stages runs as order %u with %u stages and step %.17g", order, n, s.order, s.stages, s.dt);
    t.n = n;
    t.a.assign(n, V(n, 0.));
    t.b.assign(n, 0.);
    for (int i = 0; i <= n; ++i) {
        if (!(std::fabs(s.q[i][0] - 1) < 1e-13))
            return fmt("consistency\torder %d, %d stages: stage %d multiplies a constant state by %.17g", order, n, i, s.q[i][0]);
        for (int j = 0; j < n; ++j) {
            double x = s.q[i][j + 1] / dt;
            if (!std::isfinite(x) || (j >= i && x != 0))
                return fmt("explicit\torder %d, %d stages: stage %d depends on stage %d", order, n, i, j);
            (i < n ? t.a[i][j] : t.b[j]) = x;
        }
    }
    if (times)
        *times = s.time;
    return "";
}
static std::string integrator(int order, int n, double dt) {
    Tableau t;
    V time;
    std::string e = tableau(order, n, dt, t, &time);
    if (!e.empty())
        return e;
    V c(n, 0.);
    for (int i = 0; i < n; ++i) {
        for (int j = 0; j < n; ++j)
            c[i] += t.a[i][j];
        if (!(std::fabs(time[i] / dt - c[i]) < 1e-12))
            return fmt("stage-time\torder %d, %d stages: stage %d is at %.15g of the step instead of %.15g", order, n, i, time[i] / dt, c[i]);
    }
    auto ac = [&](const V& x) {
        V r(n, 0.);
        for (int i = 0; i < n; ++i)
            for (int j = 0; j < n; ++j)
                r[i] += t.a[i][j] * x[j];
        return r;
    };
    auto dot = [&](const V& x) {
        double s = 0;
        for (int i = 0; i < n; ++i)
            s += t.b[i] * x[i];
        return s;
    };
    auto mul = [&](const V& x, const V& y) {
        V r(n);
        for (int i = 0; i < n; ++i)
            r[i] = x[i] * y[i];
        return r;
    };
    struct Cond {
        int order;
        double have, want;
        const char* name;
    };
    V one(n, 1.), c2 = mul(c, c), c3 = mul(c2, c), Ac = ac(c), Ac2 = ac(c2), AAc = ac(Ac);
    std::vector<Cond> C = {{1, dot(one), 1, "sum b"},       {2, dot(c), 1. / 2, "b c"},         {3, dot(c2), 1. / 3, "b c^2"},       {3, dot(Ac), 1. / 6, "b A c"},
                           {4, dot(c3), 1. / 4, "b c^3"},   {4, dot(mul(c, Ac)), 1. / 8, "b c A c"}, {4, dot(Ac2), 1. / 12, "b A c^2"}, {4, dot(AAc), 1. / 24, "b A A c"}};
    for (auto& q : C)
        if (q.order <= order && !(std::fabs(q.have - q.want) < 1e-9))
            return fmt("order\torder %d, %d stages: condition %s of order %d is %.15g instead of %.15g", order, n, q.name, q.order, q.have, q.want);
    // the published strong stability coefficient
    static const double R3[] = {1., 2., 2.65, 3.518, 4.287, 5.107}, R4[] = {1.508, 2.29, 3.321, 4.145};
    double r = order <= 2 ? 1. : order == 3 ? R3[n - 3] : R4[n - 5];
    r -= 2e-3;
    // K (I + r K)^-1 >= 0 and its weighted row sums <= 1, K = [A 0; b 0] (lower triangular)
    int m = n + 1;
    M K(m, V(m, 0.)), X(m, V(m, 0.));
    for (int i = 0; i < n; ++i)
        for (int j = 0; j < n; ++j)
            K[i][j] = t.a[i][j];
    for (int j = 0; j < n; ++j)
        K[n][j] = t.b[j];
    for (int i = 0; i < m; ++i) {
        double sum = 0;
        for (int j = i; j >= 0; --j) {
            // X (I + r K) = K
            double v = K[i][j];
            for (int l = j + 1; l <= i; ++l)
                v -= r * X[i][l] * K[l][j];
            X[i][j] = v;
            sum += r * v;
            if (v < -1e-10)
                return fmt("stability\torder %d, %d stages: not strongly stable at %.4g", order, n, r);
        }
        if (sum > 1 + 1e-10)
            return fmt("stability\torder %d, %d stages: not contractive at %.4g", order, n, r);
    }
    return "";
}
static V some_rhs(int kind, const V& q, double t) {
    V r(q.size());
    for (size_t i = 0; i < q.size(); ++i)
        switch (kind) {
            case 0: r[i] = 0.3 * q[(i + 1) % q.size()] - 0.1 * q[i] * q[i]; break;
            case 1: r[i] = std::cos(0.01 * t + i) - 0.2 * q[i]; break;
            case 2: r[i] = 1 + 0.25 * i; break;
            default: r[i] = std::sin(q[i] * q[(i + 1) % q.size()]) * 0.05 + 1e-4 * t; break;
        }
    return r;
}
// a run of several steps against the tableau, with the step size changed on the way
static std::string several(int order, int n, double dt, double ramp, int steps, int kind, int dt2_at) {
    Tableau t;
    std::string e = tableau(order, n, 1., t);
    if (!e.empty())
        return e;
    Plan p{order, n, dt, ramp, steps, {0.5, -1.25, 2.}, nullptr};
    p.dt2    = dt / 2;
    p.dt2_at = dt2_at;
    p.rhs    = [&](int, const V& q, double at) { return some_rhs(kind, q, at); };
    Stepping s = explicit_steps(p);
    std::string what = fmt(" (order %d, %d stages, dt %g, ramp %g, rhs %d, dt halved at %d)", order, n, dt, ramp, kind, dt2_at);
    if (s.refused || (int)s.q.size() != steps * n + 1)
        return "run\tthe run is cut short" + what;
    V q       = p.q0;
    double t0 = 0, h = dt;
    int at_step = 0;  // rounding accumulates
    auto same = [&](double x, double y, double scale) { return std::fabs(x - y) <= 1e-11 * (at_step + 1) * (scale + std::fabs(y)); };
    for (int k = 0; k <= steps; ++k) {
        at_step = k;
        if (k == dt2_at)
            h = dt / 2;
        M f, at;
        for (int i = 0; i < (k == steps ? 1 : n); ++i) {
            int g  = k * n + i;
            V x    = q;
            double c = 0;
            for (int j = 0; j < i; ++j) {
                c += t.a[i][j];
                for (size_t v = 0; v < x.size(); ++v)
                    x[v] += h * t.a[i][j] * f[j][v];
            }
            if ((int)s.step[g] != k || (int)s.stage[g] != i || (int)s.stamp[g] != g)
                return fmt("counters\tstep %d stage %d is counted as step %u stage %u number %u", k, i, s.step[g], s.stage[g], s.stamp[g]) + what;
            if (!same(s.time[g], t0 + c * h, dt))
                return fmt("time\tstep %d stage %d is at %.15g instead of %.15g", k, i, s.time[g], t0 + c * h) + what;
            double rm = ramp == 0 ? 1. : std::tanh(2 * ((t0 + c * h) / 86400.) / ramp);
            if (!same(s.ramp[g], rm, 1e-3))
                return fmt("ramp\tstep %d stage %d has ramp %.15g instead of %.15g", k, i, s.ramp[g], rm) + what;
            for (size_t v = 0; v < x.size(); ++v)
                if (!same(s.q[g][v], x[v], 1))
                    return fmt("state\tstep %d stage %d starts from %.15g instead of %.15g", k, i, s.q[g][v], x[v]) + what;
            f.push_back(some_rhs(kind, x, t0 + c * h));
        }
        if (k < steps) {
            for (int j = 0; j < n; ++j)
                for (size_t v = 0; v < q.size(); ++v)
                    q[v] += h * t.b[j] * f[j][v];
            t0 += h;
        }
    }
    return "";
}
// a measured order of convergence, by halving the step on a nonlinear problem
static std::string convergence(int order, int n, int kind) {
    auto run = [&](int steps) {
        Plan p{order, n, 0.8 / steps, 0., steps, {0.5, -0.75, 1.}, nullptr};
        p.rhs = [&](int, const V& q, double at) {
            V r = some_rhs(kind, q, 100 * at);
            for (auto& x : r)
                x *= 2;
            return r;
        };
        return explicit_steps(p).q.back();
    };
    // reference by many steps of a classical method
    V q = {0.5, -0.75, 1.};
    int N = 4000;
    double h = 0.8 / N;
    auto F = [&](const V& x, double at) {
        V r = some_rhs(kind, x, 100 * at);
        for (auto& y : r)
            y *= 2;
        return r;
    };
    auto ax = [&](const V& x, double c, const V& y) {
        V r = x;
        for (size_t i = 0; i < r.size(); ++i)
            r[i] += c * y[i];
        return r;
    };
    for (int k = 0; k < N; ++k) {
        double at = k * h;
        V k1 = F(q, at), k2 = F(ax(q, h / 2, k1), at + h / 2), k3 = F(ax(q, h / 2, k2), at + h / 2), k4 = F(ax(q, h, k3), at + h);
        for (size_t i = 0; i < q.size(); ++i)
            q[i] += h / 6 * (k1[i] + 2 * k2[i] + 2 * k3[i] + k4[i]);
    }
    auto err = [&](int steps) {
        V x = run(steps);
        double e = 0;
        for (size_t i = 0; i < x.size(); ++i)
            e = std::max(e, std::fabs(x[i] - q[i]));
        return e;
    };
    double e1 = err(4), e2 = err(8), e3 = err(16), e4 = err(32);
    // the error falls with the promised power over the whole range, or is at the accuracy of the coefficients
    if (e4 > 1e-9 && !(std::log2(e1 / e4) / 3 > order - 0.4))
        return fmt("convergence\torder %d, %d stages: halving the step changes the error from %g to %g, %g and %g (rhs %d)", order, n, e1, e2, e3, e4, kind);
    return "";
}
static std::string implicit_run(int order, int n, double dt, double ramp, int steps) {
    Plan p{order, n, dt, ramp, steps, {}, nullptr};
    Stepping s = implicit_steps(p);
    bool ok    = (order == 1 && n == 1) || (order == 2 && (n == 1 || n == 2));
    std::string what = fmt(" (implicit, order %d, %d stages, dt %g, ramp %g)", order, n, dt, ramp);
    if (ok == s.refused)
        return std::string(ok ? "implicit-refused\tvalid choice is refused" : "implicit-accepted\tinvalid choice is accepted") + what;
    if (!ok)
        return "";
    if (s.stages != 1 || s.theta != (order == 2 ? 0.5 : 0.) || (int)s.order != order || s.dt != dt)
        return fmt("implicit-method\t%u stages, weight %g", s.stages, s.theta) + what;
    for (int k = 0; k <= steps; ++k) {
        double t = k * dt, r0 = ramp == 0 ? 1. : std::tanh(2 * (t / 86400.) / ramp), r1 = ramp == 0 ? 1. : std::tanh(2 * ((t + dt) / 86400.) / ramp);
        if ((int)s.step[k] != k || s.stage[k] != 0 || (int)s.stamp[k] != k)
            return fmt("implicit-counters\tstep %d is counted as %u, %u, %u", k, s.step[k], s.stage[k], s.stamp[k]) + what;
        if (std::fabs(s.time[k] - t) > 1e-11 * (dt + t) || std::fabs(s.time_next[k] - t - dt) > 1e-11 * (dt + t))
            return fmt("implicit-time\tstep %d is from %.15g to %.15g", k, s.time[k], s.time_next[k]) + what;
        if (std::fabs(s.ramp[k] - r0) > 1e-11 || std::fabs(s.ramp_next[k] - r1) > 1e-11)
            return fmt("implicit-ramp\tstep %d has ramps %.15g, %.15g instead of %.15g, %.15g", k, s.ramp[k], s.ramp_next[k], r0, r1) + what;
    }
    return "";
}
static std::string strang(int order, int n, double dt, double ramp, int steps) {
    Plan p{order, n, dt, ramp, steps, {1., -0.5}, nullptr};
    p.rhs = [](int, const V& q, double) { return V(q.size(), 1.); };
    auto s = strang_steps(p);
    std::string what = fmt(" (splitting, order %d, %d stages, dt %g)", order, n, dt);
    if (s[2].refused)
        return "splitting\trefused" + what;
    if (s[0].dt != dt / 2 || s[1].dt != dt)
        return fmt("splitting-step\tthe halves use %.15g, the full step %.15g", s[0].dt, s[1].dt) + what;
    for (int k = 0; k <= steps; ++k)
        if ((int)s[2].step[k] != k || std::fabs(s[2].time[k] - k * dt) > 1e-11 * (1 + k) * dt)
            return fmt("splitting-count\tafter %d steps: step %u, time %.15g", k, s[2].step[k], s[2].time[k]) + what;
    // each half is traversed twice per step: both clocks end together
    if (std::fabs(s[0].time.back() - steps * dt) > 1e-11 * steps * dt || std::fabs(s[1].time.back() - steps * dt) > 1e-11 * steps * dt)
        return fmt("splitting-clock\tclocks at %.15g and %.15g", s[0].time.back(), s[1].time.back()) + what;
    double want = 1 + 2 * steps * dt;
    if (std::fabs(s[2].q[0][0] - want) > 1e-10 * want)
        return fmt("splitting-state\t%.15g instead of %.15g", s[2].q[0][0], want) + what;
    return "";
}
static void integrators(std::vector<mcl::Job>& jobs, bool th) {
    struct Pair {
        int o, n;
    };
    std::vector<Pair> ok;
    for (int o = 0; o < 10; ++o)
        for (int n = 0; n < 12; ++n)
            if (valid_explicit(o, n))
                ok.push_back({o, n});
    static const double DT[] = {1., 0.25, 0.1, 3600., 1e-3, 7.3};
    spread(jobs, "methods", ok.size() * 6, 10, [=](size_t i) { return integrator(ok[i / 6].o, ok[i / 6].n, DT[i % 6]); },
           [=](size_t i) { return fmt("order %d, %d stages, dt %g", ok[i / 6].o, ok[i / 6].n, DT[i % 6]); });
    spread(jobs, "refused", 120, 20, [=](size_t i) -> std::string {
        int o = i / 12, n = i % 12;
        if (valid_explicit(o, n))
            return "";
        Plan p{o, n, 0.5, 0., 1, {1.}, [](int, const V& q, double) { return q; }};
        if (!explicit_steps(p).refused)
            return fmt("accepted\torder %d with %d stages is accepted", o, n);
        return "";
    });
    static const double RA[] = {0, 0.5, 1., 12.};
    int K = th ? 40 : 12;
    spread(jobs, "runs", ok.size() * 6 * 4 * 4 * 3, 60, [=](size_t i) {
        Digits g{i};
        auto& m = ok[g(ok.size())];
        double dt = DT[g(6)], ra = RA[g(4)];
        int kind = g(4), change = g(3);
        if (dt > 5 && kind != 2)
            dt = 0.4;  // within stability
        return several(m.o, m.n, dt, ra, K, kind, change == 0 ? -1 : change == 1 ? 1 : 5);
    });
    spread(jobs, "convergence", ok.size() * 4, 10, [=](size_t i) { return convergence(ok[i / 4].o, ok[i / 4].n, i % 4); });
    spread(jobs, "implicit", 5 * 5 * 6 * 4, 60, [=](size_t i) {
        Digits g{i};
        int o = g(5), n = g(5);
        double dt = DT[g(6)];
        return implicit_run(o, n, dt, RA[g(4)], K);
    });
    spread(jobs, "splitting", ok.size() * 6 * 4, 60, [=](size_t i) {
        Digits g{i};
        auto& m = ok[g(ok.size())];
        double dt = DT[g(6)];
        return strang(m.o, m.n, dt, RA[g(4)], K);
    });
}

// ---- polynomials in two variables ----------------------------------------------------------------
template <class T>
struct PolyT {
    int n = 0;  // degree
    std::vector<T> c{T(0)};  // c[i*(n+1)+j] of z1^i z2^j
    explicit PolyT(int d = 0) : n(d), c((d + 1) * (d + 1), 0) {}
    T& at(int i, int j) { return c[i * (n + 1) + j]; }
    T at(int i, int j) const { return i <= n && j <= n ? c[i * (n + 1) + j] : T(0); }
    L operator()(L x, L y) const {
        L r = 0;
        for (int i = n; i >= 0; --i) {
            L s = 0;
            for (int j = n; j >= 0; --j)
                s = s * y + at(i, j);
            r = r * x + s;
        }
        return r;
    }
    PolyT d(int v) const {
        PolyT r(n);
        for (int i = 0; i <= n; ++i)
            for (int j = 0; j <= n; ++j) {
                if (v == 0 && i)
                    r.at(i - 1, j) += i * at(i, j);
                if (v == 1 && j)
                    r.at(i, j - 1) += j * at(i, j);
            }
        return r;
    }
};
using Poly = PolyT<L>;
template <class T>
static PolyT<T> operator*(const PolyT<T>& a, const PolyT<T>& b) {
    PolyT<T> r(a.n + b.n);
    for (int i = 0; i <= a.n; ++i)
        for (int j = 0; j <= a.n; ++j)
            if (a.at(i, j) != 0)
                for (int k = 0; k <= b.n; ++k)
                    for (int l = 0; l <= b.n; ++l)
                        r.at(i + k, j + l) += a.at(i, j) * b.at(k, l);
    return r;
}
template <class T>
static PolyT<T> lin(const PolyT<T>& a, L x, const PolyT<T>& b, L y) {
    PolyT<T> r(std::max(a.n, b.n));
    for (int i = 0; i <= r.n; ++i)
        for (int j = 0; j <= r.n; ++j)
            r.at(i, j) = T(x) * a.at(i, j) + T(y) * b.at(i, j);
    return r;
}
// jacobi polynomial in x by its explicit sum
static L jac(int n, int a, int b, L x) {
    // P = sum_s C(n+a, n-s) C(n+b, s) ((x-1)/2)^s ((x+1)/2)^(n-s)
    auto C = [](int n, int k) {
        L r = 1;
        for (int i = 0; i < k; ++i)
            r = r * (n - i) / (i + 1);
        return r;
    };
    L r = 0;
    for (int s = 0; s <= n; ++s)
        r += C(n + a, n - s) * C(n + b, s) * std::pow((x - 1) / 2, (L)s) * std::pow((x + 1) / 2, (L)(n - s));
    return r;
}
static L djac(int n, int a, int b, L x) { return n == 0 ? 0 : (n + a + b + 1) / (L)2 * jac(n - 1, a + 1, b + 1, x); }
// the Dubiner functions of the master triangle, in the solver's order
template <class T>
static std::vector<PolyT<T>> dubinerT(int p) {
    PolyT<T> z1(1), z2(1), one(0);
    z1.at(1, 0) = 1;
    z2.at(0, 1) = 1;
    one.at(0, 0) = 1;
    PolyT<T> b = lin(one, 0.5L, z2, -0.5L), a = lin(lin(one, 1, z1, 1), 1, b, -1);
    std::vector<PolyT<T>> Lg{one, a};
    for (int k = 1; k < p + 1; ++k)
        {
        auto t = lin(a * Lg[k], 2 * k + 1, b * (b * Lg[k - 1]), -k);
        for (auto& x : t.c)
            x /= k + 1;
        Lg.push_back(t);
    }
    std::vector<PolyT<T>> r;
    for (int k = 0; k <= p; ++k)
        for (int i = 0; i <= k; ++i) {
            int q = k - i, al = 2 * i + 1;
            // P_q^(al,0)(z2)
            PolyT<T> P(q), u = lin(z2, 0.5L, one, -0.5L), v = lin(z2, 0.5L, one, 0.5L);
            PolyT<T> s(0);
            auto C = [](int n, int k) {
                L r = 1;
                for (int i = 0; i < k; ++i)
                    r = r * (n - i) / (i + 1);
                return r;
            };
            for (int m = 0; m <= q; ++m) {
                PolyT<T> t = one;
                for (int x = 0; x < m; ++x)
                    t = t * u;
                for (int x = 0; x < q - m; ++x)
                    t = t * v;
                s = lin(s, 1, t, C(q + al, q - m) * C(q, m));
            }
            r.push_back(Lg[i] * s);
        }
    return r;
}
static std::vector<Poly> dubiner(int p) { return dubinerT<L>(p); }
// integral of z1^i z2^j over the master triangle
template <class T>
static T monomialT(int i, int j) {
    // over z2 from -1 to 1, z1 from -1 to -z2
    // int z1^i = ((-z2)^(i+1) - (-1)^(i+1)) / (i+1)
    auto seg = [](int k) { return k % 2 ? T(0) : T(2) / (k + 1); };
    T s1 = (i + 1) % 2 ? -1 : 1;
    return (s1 * seg(i + 1 + j) - s1 * seg(j)) / (i + 1);
}
static L monomial(int i, int j) { return monomialT<L>(i, j); }
// products of the functions integrated over the master triangle, in extended precision
static const std::vector<std::vector<L>>& gram(int p) {
    static std::map<int, std::vector<std::vector<L>>> all;
    auto& g = all[p];
    if (g.empty()) {
        auto B = dubinerT<__float128>(p);
        g.assign(B.size(), std::vector<L>(B.size()));
        for (size_t a = 0; a < B.size(); ++a)
            for (size_t b = 0; b <= a; ++b) {
                auto q       = B[a] * B[b];
                __float128 s = 0;
                for (int i = 0; i <= q.n; ++i)
                    for (int j = 0; j <= q.n; ++j)
                        if (q.at(i, j) != 0)
                            s += q.at(i, j) * monomialT<__float128>(i, j);
                g[a][b] = g[b][a] = s;
            }
    }
    return g;
}

// ---- P15: quadrature and bases ---------------------------------------------------------------------
static std::string check_rule1(unsigned p) {
    Rule r = rule1(p);
    if (r.w.size() != r.ngp || r.x.size() != r.ngp || r.ngp == 0)
        return fmt("points\tline rule for degree %u has %zu points, %u announced", p, r.w.size(), r.ngp);
    for (unsigned k = 0; k <= p; ++k) {
        L s = 0;
        for (size_t i = 0; i < r.ngp; ++i)
            s += r.w[i] * std::pow((L)r.x[i][0], (L)k);
        L want = k % 2 ? 0 : (L)2 / (k + 1);
        if (!(std::fabs(s - want) < 2e-14L))
            return fmt("line\tline rule for degree %u integrates x^%u to %.17Lg instead of %.17Lg", p, k, s, want);
    }
    for (size_t i = 0; i < r.ngp; ++i) {
        if (!(std::fabs(r.x[i][0]) < 1) || !(r.w[i] > 0))
            return fmt("line\tline rule for degree %u has a point outside", p);
        if (std::fabs(r.x[i][0] + r.x[r.ngp - 1 - i][0]) > 1e-15 || std::fabs(r.w[i] - r.w[r.ngp - 1 - i]) > 1e-15 || (i && r.x[i][0] <= r.x[i - 1][0]))
            return fmt("line\tline rule for degree %u is not the same from both ends", p);
    }
    return "";
}
static std::string check_rule2(unsigned p) {
    Rule r = rule2(p);
    if (r.w.size() != r.ngp || r.x.size() != r.ngp)
        return fmt("points\ttriangle rule for degree %u has %zu points, %u announced", p, r.w.size(), r.ngp);
    for (unsigned i = 0; i <= p; ++i)
        for (unsigned j = 0; i + j <= p; ++j) {
            L s = 0, a = 0;
            for (size_t k = 0; k < r.ngp; ++k) {
                L t = r.w[k] * std::pow((L)r.x[k][0], (L)i) * std::pow((L)r.x[k][1], (L)j);
                s += t;
                a += std::fabs(t);
            }
            if (!(std::fabs(s - monomial(i, j)) < 1e-13L * (1 + a)))
                return fmt("triangle\ttriangle rule for degree %u integrates x^%u y^%u to %.17Lg instead of %.17Lg", p, i, j, s, monomial(i, j));
        }
    return "";
}
static std::vector<P2> lattice(int n) {
    std::vector<P2> r;
    for (int j = 0; j <= n; ++j)
        for (int i = 0; i + j <= n; ++i)
            r.push_back({-1 + 2. * i / n, -1 + 2. * j / n});
    return r;
}
static bool near(double x, L y, L scale, L tol) { return std::fabs(x - y) <= tol * (scale + std::fabs(y)); }
static std::string check_basis2(unsigned p, int n) {
    auto B = dubiner(p);
    auto X = lattice(n);
    M f    = phi2(p, X);
    auto d = dphi2(p, X);
    size_t nd = (p + 1) * (p + 2) / 2;
    if (f.size() != nd || d[0].size() != nd || d[1].size() != nd)
        return fmt("functions\tdegree %u has %zu functions", p, f.size());
    L tol = 1e-12L * (1 << p);
    for (size_t k = 0; k < nd; ++k) {
        Poly d0 = B[k].d(0), d1 = B[k].d(1);
        for (size_t i = 0; i < X.size(); ++i) {
            L x = X[i][0], y = X[i][1];
            // the solver evaluates at the corner where its coordinates degenerate by a rule of its own
            if (!near(f[k][i], B[k](x, y), 1, tol))
                return fmt("value\tdegree %u, function %zu at (%g, %g) is %.15g instead of %.15Lg", p, k, X[i][0], X[i][1], f[k][i], B[k](x, y));
            if (!near(d[0][k][i], d0(x, y), 1 + p * p, tol) || !near(d[1][k][i], d1(x, y), 1 + p * p, tol))
                return fmt("gradient\tdegree %u, function %zu at (%g, %g) has gradient (%.15g, %.15g) instead of (%.15Lg, %.15Lg)", p, k, X[i][0], X[i][1], d[0][k][i],
                           d[1][k][i], d0(x, y), d1(x, y));
        }
    }
    return "";
}
static std::string check_mass2(unsigned p) {
    auto B = dubiner(p);
    size_t nd = B.size();
    M mi = minv2(p);
    if (mi.size() != nd)
        return fmt("mass\tdegree %u: size %zu", p, mi.size());
    auto& m = gram(p);
    for (size_t a = 0; a < nd; ++a)
        for (size_t b = 0; b < nd; ++b) {
            L s = 0;
            for (size_t k = 0; k < nd; ++k)
                s += (L)mi[a][k] * m[k][b];
            if (std::fabs(s - (a == b)) > 1e-12L)
                return fmt("mass\tdegree %u: inverse mass matrix times mass matrix is %.12Lg at %zu, %zu", p, s, a, b);
        }
    // vertex values of the linear part, and back
    if (p >= 1) {
        M t = to_linear(p), u = from_linear(p);
        static const L VX[3][2] = {{-1, -1}, {1, -1}, {-1, 1}};
        if (t.size() != nd || t[0].size() != 3 || u.size() != 3 || u[0].size() != nd)
            return fmt("linear\tdegree %u: sizes", p);
        for (size_t k = 0; k < nd; ++k)
            for (int v = 0; v < 3; ++v) {
                L want = k < 3 ? B[k](VX[v][0], VX[v][1]) : 0;
                if (!near(t[k][v], want, 1, 1e-14L))
                    return fmt("linear\tdegree %u: vertex %d of function %zu is %.15g instead of %.15Lg", p, v, k, t[k][v], want);
            }
        for (int a = 0; a < 3; ++a)
            for (int b = 0; b < 3; ++b) {
                L s = 0;
                for (size_t k = 0; k < nd; ++k)
                    s += (L)u[a][k] * t[k][b];
                if (std::fabs(s - (a == b)) > 1e-14L)
                    return fmt("linear\tdegree %u: vertex values do not survive the way to the basis and back", p);
            }
        for (int a = 0; a < 3; ++a)
            for (size_t k = 3; k < nd; ++k)
                if (u[a][k] != 0)
                    return fmt("linear\tdegree %u: a linear function has a part in function %zu", p, k);
    }
    return "";
}
static std::string check_basis1(unsigned p) {
    V X;
    for (int i = -20; i <= 20; ++i)
        X.push_back(i / 20.);
    M f = phi1(p, X), d = dphi1(p, X), mi = minv1(p);
    if (f.size() != p + 1 || d.size() != p + 1 || mi.size() != p + 1)
        return fmt("functions\tline basis of degree %u has %zu functions", p, f.size());
    for (unsigned k = 0; k <= p; ++k) {
        for (size_t i = 0; i < X.size(); ++i) {
            if (!near(f[k][i], jac(k, 0, 0, X[i]), 1, 1e-12L))
                return fmt("value\tline function %u at %g is %.15g", k, X[i], f[k][i]);
            if (!near(d[k][i], djac(k, 0, 0, X[i]), 1 + k * k, 1e-12L))
                return fmt("gradient\tline function %u at %g has derivative %.15g", k, X[i], d[k][i]);
        }
        for (unsigned j = 0; j <= p; ++j)
            if (!near(mi[k][j], j == k ? (2 * k + 1) / (L)2 : 0, 0, 1e-14L))
                return fmt("mass\tline basis of degree %u: inverse mass matrix is %.12g at %u, %u", p, mi[k][j], k, j);
    }
    return "";
}
static std::string check_jacobi(int n, int a, int b) {
    V X;
    for (int i = -16; i <= 16; ++i)
        X.push_back(i / 16.);
    V f = jacobi(n, a, b, X), d = djacobi(n, a, b, X);
    L sf = 1, sd = 1;
    for (double x : X) {
        sf = std::max(sf, std::fabs(jac(n, a, b, x)));
        sd = std::max(sd, std::fabs(djac(n, a, b, x)));
    }
    for (size_t i = 0; i < X.size(); ++i) {
        if (!near(f[i], jac(n, a, b, X[i]), sf, 1e-11L))
            return fmt("jacobi\tJacobi polynomial %d of (%d,%d) at %g is %.15g instead of %.15Lg", n, a, b, X[i], f[i], jac(n, a, b, X[i]));
        if (!near(d[i], djac(n, a, b, X[i]), sd, 1e-11L))
            return fmt("jacobi\tderivative of Jacobi polynomial %d of (%d,%d) at %g is %.15g instead of %.15Lg", n, a, b, X[i], d[i], djac(n, a, b, X[i]));
    }
    return "";
}
static std::string check_edges(unsigned p) {
    V x;
    for (int i = -8; i <= 8; ++i)
        x.push_back(i / 8.);
    for (unsigned s = 0; s < 3; ++s) {
        static const double VX[3][2] = {{-1, -1}, {1, -1}, {-1, 1}};
        auto r = edge_to_master(p, s, x);
        for (size_t i = 0; i < x.size(); ++i)
            for (int c = 0; c < 2; ++c) {
                double want = 0.5 * (1 - x[i]) * VX[(s + 1) % 3][c] + 0.5 * (1 + x[i]) * VX[(s + 2) % 3][c];
                if (std::fabs(r[i][c] - want) > 1e-15)
                    return fmt("edge\tpoint %g of side %u is mapped to (%g, %g)", x[i], s, r[i][0], r[i][1]);
            }
    }
    return "";
}
static void bases(std::vector<mcl::Job>& jobs, bool th) {
    spread(jobs, "line rules", 66, 8, [](size_t i) { return check_rule1(i); }, [](size_t i) { return fmt("degree %zu", i); });
    spread(jobs, "triangle rules", 21, 1, [](size_t i) { return check_rule2(i); }, [](size_t i) { return fmt("degree %zu", i); });
    int P = th ? 12 : 10, N = th ? 60 : 24;
    spread(jobs, "triangle basis", (P + 1) * N, 4, [=](size_t i) { return check_basis2(i % (P + 1), 1 + i / (P + 1)); },
           [=](size_t i) { return fmt("degree %zu on a lattice of %zu", i % (P + 1), 1 + i / (P + 1)); });
    spread(jobs, "triangle mass", P + 1, 1, [](size_t i) { return check_mass2(i); });
    spread(jobs, "line basis", 21, 4, [](size_t i) { return check_basis1(i); });
    int J = th ? 13 : 11;
    spread(jobs, "jacobi", J * 26 * 4, 50, [=](size_t i) {
        Digits g{i};
        int n = g(J), a = g(26), b = g(4);
        return b > a ? std::string() : check_jacobi(n, a, b);  // the solver only asks for b <= a
    });
    spread(jobs, "edges", 6, 2, [](size_t i) { return check_edges(1 + i); });
}

// ---- P16: operators -----------------------------------------------------------------------------------
struct Geo {  // exact geometry of a triangle
    L x[3], y[3], J;
    explicit Geo(const std::array<P2, 3>& n) {
        for (int i = 0; i < 3; ++i) {
            x[i] = n[i][0];
            y[i] = n[i][1];
        }
        J = ((x[1] - x[0]) * (y[2] - y[0]) - (x[2] - x[0]) * (y[1] - y[0])) / 4;
    }
    void local(L X, L Y, L& z1, L& z2) const {
        L a = X - x[0], b = Y - y[0], D = 4 * J;
        z1 = 2 * (a * (y[2] - y[0]) - b * (x[2] - x[0])) / D - 1;
        z2 = 2 * (b * (x[1] - x[0]) - a * (y[1] - y[0])) / D - 1;
    }
    void global(L z1, L z2, L& X, L& Y) const {
        X = -(z1 + z2) / 2 * x[0] + (1 + z1) / 2 * x[1] + (1 + z2) / 2 * x[2];
        Y = -(z1 + z2) / 2 * y[0] + (1 + z1) / 2 * y[1] + (1 + z2) / 2 * y[2];
    }
    // d z / d x
    L dz(int z, int d) const {
        L D = 2 * J;
        if (z == 0)
            return d == 0 ? (y[2] - y[0]) / D : -(x[2] - x[0]) / D;
        return d == 0 ? -(y[1] - y[0]) / D : (x[1] - x[0]) / D;
    }
    L len(int s) const { return std::hypot(x[(s + 2) % 3] - x[(s + 1) % 3], y[(s + 2) % 3] - y[(s + 1) % 3]); }
    L nx(int s) const { return (y[(s + 2) % 3] - y[(s + 1) % 3]) / len(s); }
    L ny(int s) const { return -(x[(s + 2) % 3] - x[(s + 1) % 3]) / len(s); }
};
struct Tol {
    L t;
    std::string bad;
    std::string where;
    void eq(const char* what, double x, L y, L scale = 1) {
        if (bad.empty() && !(std::fabs(x - y) <= t * (scale + std::fabs(y))))
            bad = fmt("%s\t%s is %.15g instead of %.15Lg", what, what, x, y) + where;
    }
    void is(const char* what, bool b) {
        if (bad.empty() && !b)
            bad = fmt("%s\t%s is wrong", what, what) + where;
    }
};
static std::string show(const std::array<P2, 3>& n) { return fmt(" of the triangle (%g,%g) (%g,%g) (%g,%g)", n[0][0], n[0][1], n[1][0], n[1][1], n[2][0], n[2][1]); }
static L cond_of(const Geo& g) {  // loss of digits by offsets and thin shapes
    L m = 0, l = 0;
    for (int i = 0; i < 3; ++i) {
        m = std::max(m, std::max(std::fabs(g.x[i]), std::fabs(g.y[i])));
        l = std::max(l, g.len(i));
    }
    L h = 2 * std::fabs(2 * g.J) / l;  // smallest height
    return (m + l) / h;
}
static std::string check_shape(const std::array<P2, 3>& n) {
    std::vector<P2> loc = lattice(4);
    loc.push_back({0.25, 0.5});
    loc.push_back({-2, 3});
    V edge = {-1, -0.5, 0, 0.25, 1};
    Geo in(n);
    std::array<P2, 3> ccw = n;
    if (in.J < 0)
        std::swap(ccw[0], ccw[2]);
    Geo g(ccw);
    std::vector<P2> gl;
    std::vector<int> inside;  // 1 inside, 0 outside, -1 too close to call
    for (int j = -1; j <= 5; ++j)
        for (int i = -1; i <= 5; ++i) {
            L X, Y, z1 = -1 + 0.45L * i, z2 = -1 + 0.45L * j;
            g.global(z1, z2, X, Y);
            gl.push_back({(double)X, (double)Y});
            L m = std::min({z1 + 1, z2 + 1, -(z1 + z2)});
            inside.push_back(std::fabs(m) < 1e-6 ? -1 : m > 0);
        }
    Tri t = triangle(n, loc, edge, gl, 3);
    Tol e{1e-13L * std::max<L>(1, cond_of(g)), "", show(n)};
    L A   = 2 * g.J, P = g.len(0) + g.len(1) + g.len(2);
    for (int i = 0; i < 3; ++i)
        for (int c = 0; c < 2; ++c)
            e.eq("node", t.node[i][c], ccw[i][c], 0);
    e.eq("area", t.area, A, 0);
    e.eq("radius", t.radius, g.len(0) * g.len(1) * g.len(2) / (4 * A), 0);
    e.eq("perimeter", t.perimeter, P, 0);
    e.eq("jacobian", t.jdet, g.J, 0);
    L sz = P;
    for (int c = 0; c < 3; ++c) {
        sz = std::max(sz, std::max(std::fabs(g.x[c]), std::fabs(g.y[c])));
    }
    e.eq("barycentre", t.bary[0], (g.x[0] + g.x[1] + g.x[2]) / 3, sz);
    e.eq("barycentre", t.bary[1], (g.y[0] + g.y[1] + g.y[2]) / 3, sz);
    for (int s = 0; s < 3; ++s) {
        int a = (s + 1) % 3, b = (s + 2) % 3;
        e.eq("side length", t.lengths[s], g.len(s), 0);
        e.eq("side jacobian", t.surface_j[s], g.len(s) / 2, 0);
        e.eq("midpoint", t.mid[s][0], (g.x[a] + g.x[b]) / 2, sz);
        e.eq("midpoint", t.mid[s][1], (g.y[a] + g.y[b]) / 2, sz);
        e.eq("normal", t.normal[s][0], g.nx(s));
        e.eq("normal", t.normal[s][1], g.ny(s));
        e.is("side nodes", t.bound_nodes[s] == std::vector<unsigned>({10u + 10 * a, 10u + 10 * b}));
        for (size_t k = 0; k < edge.size(); ++k) {
            e.eq("side interpolation", t.bound_psi[s][0][k], (1 - edge[k]) / 2);
            e.eq("side interpolation", t.bound_psi[s][1][k], (1 + edge[k]) / 2);
        }
        for (int d = 0; d < 2; ++d)
            if (s < 2)
                e.eq("inverse jacobian", t.jinv[s][d], g.dz(s, d), 1 / sz);
    }
    for (size_t k = 0; k < loc.size(); ++k) {
        L z1 = loc[k][0], z2 = loc[k][1], X, Y;
        e.eq("interpolation", t.psi[0][k], -(z1 + z2) / 2);
        e.eq("interpolation", t.psi[1][k], (1 + z1) / 2);
        e.eq("interpolation", t.psi[2][k], (1 + z2) / 2);
        for (int d = 0; d < 2; ++d) {
            L sc = std::fabs(g.dz(0, d)) + std::fabs(g.dz(1, d));
            e.eq("slope", t.dpsi[d][0][k], -(g.dz(0, d) + g.dz(1, d)) / 2, sc);
            e.eq("slope", t.dpsi[d][1][k], g.dz(0, d) / 2, sc);
            e.eq("slope", t.dpsi[d][2][k], g.dz(1, d) / 2, sc);
        }
        g.global(z1, z2, X, Y);
        e.eq("mapping", t.global[k][0], X, sz);
        e.eq("mapping", t.global[k][1], Y, sz);
    }
    for (size_t k = 0; k < gl.size(); ++k) {
        L z1, z2;
        g.local(gl[k][0], gl[k][1], z1, z2);
        e.eq("inverse mapping", t.local[k][0], z1);
        e.eq("inverse mapping", t.local[k][1], z2);
        if (inside[k] >= 0)
            e.is("containment", t.inside[k] == (inside[k] == 1));
    }
    // pictures: the cells cover the triangle and refer to the points that were added
    size_t np = t.vtk_points.size(), nc = t.vtk_cells.size();
    e.is("picture", np > 5 && nc > 3);
    for (size_t k = 0; k < 3 && e.bad.empty(); ++k) {
        e.is("picture", t.vtk_points[k] == V({7., 7., 7.}));
        e.is("picture", t.vtk_cells[k] == std::vector<unsigned>({9, 9, 9, 9}));
    }
    L sum = 0;
    for (size_t k = 3; k < nc && e.bad.empty(); ++k) {
        auto& c = t.vtk_cells[k];
        e.is("picture", c.size() == 4 && c[0] == 5);
        for (size_t i = 1; i < c.size(); ++i)
            e.is("picture", c[i] >= 3 && c[i] < np);
        if (!e.bad.empty())
            break;
        auto &a = t.vtk_points[c[1]], &b = t.vtk_points[c[2]], &d = t.vtk_points[c[3]];
        L ar = (((L)b[0] - a[0]) * ((L)d[1] - a[1]) - ((L)d[0] - a[0]) * ((L)b[1] - a[1])) / 2;
        sum += std::fabs(ar);
        for (auto* v : {&a, &b, &d}) {
            L z1, z2;
            g.local((*v)[0], (*v)[1], z1, z2);
            e.is("picture", z1 >= -1 - 100 * e.t && z2 >= -1 - 100 * e.t && z1 + z2 <= 100 * e.t && (*v)[2] == 0);
        }
    }
    e.t *= 10;
    e.eq("picture", sum, A, 0);
    return e.bad;
}
// the squared distance over the triangle, exactly
static L poly_int(const Poly& q) {
    L s = 0;
    for (int i = 0; i <= q.n; ++i)
        for (int j = 0; j <= q.n; ++j)
            if (q.at(i, j) != 0)
                s += q.at(i, j) * monomial(i, j);
    return s;
}
static std::string check_elem(const ElemOps& o, const std::array<P2, 3>& n, unsigned p, const std::vector<P2>& survey, const M& u) {
    Geo g(n);
    auto B = dubiner(p);
    size_t nd = B.size(), ng = o.ngp;
    L cd = std::max<L>(1, cond_of(g));
    Tol e{1e-12L * cd * (1 << p), "", show(n) + fmt(", degree %u", p)};
    e.is("sizes", o.ndof == nd && o.ugp.size() == nd && o.f[0].size() == ng && o.integ.size() == ng);
    if (!e.bad.empty())
        return e.bad;
    L l = 0, sz = 0;
    for (int s = 0; s < 3; ++s) {
        l  = std::max(l, g.len(s));
        sz = std::max({sz, std::fabs(g.x[s]), std::fabs(g.y[s]), l});
    }
    std::vector<L> z1(ng), z2(ng);
    for (size_t k = 0; k < ng; ++k)
        g.local(o.f[0][k], o.f[1][k], z1[k], z2[k]);
    std::vector<Poly> D[2];
    for (auto& b : B)
        for (int v = 0; v < 2; ++v)
            D[v].push_back(b.d(v));
    L sc[2];
    for (int d = 0; d < 2; ++d)
        sc[d] = (std::fabs(g.dz(0, d)) + std::fabs(g.dz(1, d))) * (1 + p * p);
    // integration is exact up to twice the degree
    for (unsigned i = 0; i <= 2 * p; ++i)
        for (unsigned j = 0; i + j <= 2 * p; ++j) {
            L s = 0;
            for (size_t k = 0; k < ng; ++k)
                s += o.integ[k][0] * std::pow(z1[k], (L)i) * std::pow(z2[k], (L)j);
            e.eq("integral", s / g.J, monomial(i, j));
        }
    auto lin3 = [](int v, L a, L b) { return v == 0 ? -(a + b) / 2 : v == 1 ? (1 + a) / 2 : (1 + b) / 2; };
    auto dlin = [&](int v, int d) { return v == 0 ? -(g.dz(0, d) + g.dz(1, d)) / 2 : g.dz(v - 1, d) / 2; };
    for (size_t k = 0; k < ng; ++k) {
        e.eq("constant", o.f[2][k], 1);
        for (size_t a = 0; a < nd; ++a) {
            L ph = B[a](z1[k], z2[k]);
            e.eq("value at points", o.ugp[a][k], ph);
            e.eq("integral with function", o.iphi[k][a], o.integ[k][0] * ph, g.J);
            e.eq("integral with one function", o.iphi1[k][a], o.integ[k][0] * ph, g.J);
            for (int d = 0; d < 2; ++d) {
                L dp = D[0][a](z1[k], z2[k]) * g.dz(0, d) + D[1][a](z1[k], z2[k]) * g.dz(1, d);
                e.eq("gradient at points", o.dugp[d][a][k], dp, sc[d]);
                e.eq("integral with gradient", o.idphi[d][k][a], o.integ[k][0] * dp, g.J * sc[d]);
                e.eq("integral with one gradient", o.idphi1[d][k][a], o.integ[k][0] * dp, g.J * sc[d]);
                for (size_t b = 0; b < nd; ++b)
                    e.eq("integral with function and gradient", o.iphidphi[d][b][k][a], o.integ[k][0] * dp * B[b](z1[k], z2[k]), g.J * sc[d]);
            }
            for (size_t b = 0; b < nd; ++b)
                e.eq("integral with two functions", o.iphiphi[b][k][a], o.integ[k][0] * ph * B[b](z1[k], z2[k]), g.J);
        }
        for (int v = 0; v < 3; ++v) {
            e.eq("linear value", o.lin[v][k], lin3(v, z1[k], z2[k]));
            e.eq("nodal value", o.nodal[v][k], lin3(v, z1[k], z2[k]));
            for (int d = 0; d < 2; ++d) {
                e.eq("linear gradient", o.dlin[d][v][k], dlin(v, d), sc[d]);
                e.eq("nodal gradient", o.dnodal[d][v][k], dlin(v, d), sc[d]);
            }
        }
    }
    for (int v = 0; v < 3; ++v) {
        e.eq("value at barycentre", o.lin_bary[v][0], 1 / (L)3);
        for (int d = 0; d < 2; ++d)
            e.eq("gradient at barycentre", o.lin_dbary[d][v][0], dlin(v, d), sc[d]);
        for (int s = 0; s < 3; ++s) {
            e.eq("value at midpoint", o.lin_mid[v][s], v == s ? 0 : 0.5L);
            e.eq("value at vertex", o.lin_vrtx[v][s], v == s);
        }
    }
    // projections
    auto& gm = gram(p);
    for (size_t a = 0; a < nd; ++a)
        for (size_t b = 0; b < nd; ++b) {
            L s = 0;
            for (size_t k = 0; k < ng; ++k)
                s += (L)o.ugp[a][k] * o.l2[k][b];
            e.eq("projection", s, a == b);
            L m = gm[b][b] * g.J;
            e.eq("inverse mass", o.minv[a][b] * m, a == b);
        }
    for (int v = 0; v < 3 && p >= 1; ++v) {
        static const L VX[3][2] = {{-1, -1}, {1, -1}, {-1, 1}};
        for (int w = 0; w < 3; ++w) {
            L s = 0, t = 0;
            for (size_t a = 0; a < nd; ++a) {
                s += (L)o.l2node[v][a] * B[a](VX[w][0], VX[w][1]);
                t += (L)o.from_lin[v][a] * B[a](VX[w][0], VX[w][1]);
            }
            e.eq("projection of nodal values", s, v == w);
            e.eq("linear function in the basis", t, v == w);
            L f = 0, want = v == 0 ? g.x[w] : v == 1 ? g.y[w] : 1;
            for (size_t a = 0; a < nd; ++a)
                f += (L)o.l2f[v][a] * B[a](VX[w][0], VX[w][1]);
            e.eq("projection of a function", f, want, sz);
        }
        for (size_t a = 0; a < nd; ++a)
            e.eq("linear part", o.to_lin[a][v], a < 3 ? B[a](VX[v][0], VX[v][1]) : 0);
    }
    // pictures (one cell per element) and survey points
    {
        static const L VX[3][2] = {{-1, -1}, {1, -1}, {-1, 1}};
        for (size_t a = 0; a < nd; ++a) {
            if (o.cell[a].size() == 1)
                e.eq("picture of cells", o.cell[a][0], B[a](-1 / (L)3, -1 / (L)3));
            if (o.point[a].size() == 3)
                for (int v = 0; v < 3; ++v)
                    e.eq("picture of points", o.point[a][v], B[a](VX[v][0], VX[v][1]), 1 << p);
            for (size_t k = 0; k < survey.size(); ++k) {
                L a1, a2;
                g.local(survey[k][0], survey[k][1], a1, a2);
                if (a2 < 0.9)
                    e.eq("survey point", o.survey[a][k], B[a](a1, a2), std::pow(1 + std::fabs(a1) + std::fabs(a2), (L)p) * (1 << p));
            }
        }
    }
    // distance between an expansion and a function
    {
        Poly X(1), Y(1), one(0);
        one.at(0, 0) = 1;
        X.at(0, 0)   = (g.x[1] + g.x[2]) / 2;
        X.at(1, 0)   = (g.x[1] - g.x[0]) / 2;
        X.at(0, 1)   = (g.x[2] - g.x[0]) / 2;
        Y.at(0, 0)   = (g.y[1] + g.y[2]) / 2;
        Y.at(1, 0)   = (g.y[1] - g.y[0]) / 2;
        Y.at(0, 1)   = (g.y[2] - g.y[0]) / 2;
        for (size_t q = 0; q < u.size() && p <= 7 && e.bad.empty(); ++q) {
            Poly f = q == 0 ? X * Y : q == 1 ? lin(lin(X, 1, Y, -2), 1, one, 0.5L) : lin(X * (X * Y), 1, Y, -1);
            L scale = poly_int(f * f);
            for (size_t a = 0; a < nd; ++a)
                f = lin(f, 1, B[a], -u[q][a]);
            e.eq("distance to a function", o.resid[q], poly_int(f * f) * g.J, g.J * (scale + 1) * 100);
        }
    }
    return e.bad;
}
static std::string check_side(const SideOps& o, const std::array<P2, 3>& n, unsigned p, unsigned s, V* where = nullptr) {
    Geo g(n);
    auto B = dubiner(p);
    size_t nd = B.size(), ng = o.ngp;
    Tol e{1e-12L * std::max<L>(1, cond_of(g)) * (1 << p), "", fmt(" on side %u", s) + show(n) + fmt(", degree %u", p)};
    e.is("side sizes", o.ugp.size() == nd && o.f[0].size() == ng && o.integ.size() == ng && o.normal.size() == 2 && o.normal[0].size() == ng);
    if (!e.bad.empty())
        return e.bad;
    int a = (s + 1) % 3, b = (s + 2) % 3;
    L len = g.len(s), tx = (g.x[b] - g.x[a]) / len, ty = (g.y[b] - g.y[a]) / len;
    std::vector<L> x(ng);  // place along the side, -1 to 1
    for (size_t k = 0; k < ng; ++k) {
        L dx = o.f[0][k] - g.x[a], dy = o.f[1][k] - g.y[a];
        x[k] = 2 * (dx * tx + dy * ty) / len - 1;
        e.eq("distance from the side", (double)((dx * ty - dy * tx) / len), 0);
        e.eq("side normal", o.normal[0][k], g.nx(s));
        e.eq("side normal", o.normal[1][k], g.ny(s));
        if (k)
            e.is("order along the side", x[k] > x[k - 1]);
        if (where)
            where->push_back(x[k]);
    }
    for (unsigned i = 0; i <= 2 * p + 1; ++i) {
        L t = 0;
        for (size_t k = 0; k < ng; ++k)
            t += o.integ[k][0] * std::pow(x[k], (L)i);
        e.eq("side integral", t / (len / 2), i % 2 ? 0 : (L)2 / (i + 1));
    }
    for (size_t k = 0; k < ng; ++k) {
        L z1, z2;
        static const L VX[3][2] = {{-1, -1}, {1, -1}, {-1, 1}};
        z1 = (1 - x[k]) / 2 * VX[a][0] + (1 + x[k]) / 2 * VX[b][0];
        z2 = (1 - x[k]) / 2 * VX[a][1] + (1 + x[k]) / 2 * VX[b][1];
        for (size_t i = 0; i < nd; ++i) {
            L ph = B[i](z1, z2);
            e.eq("side value", o.ugp[i][k], ph);
            e.eq("side integral with function", o.iphi[k][i], o.integ[k][0] * ph, len);
            e.eq("side integral with one function", o.iphi1[k][i], o.integ[k][0] * ph, len);
            for (size_t j = 0; j < nd; ++j)
                e.eq("side integral with two functions", o.iphiphi[j][k][i], o.integ[k][0] * ph * B[j](z1, z2), len * (1 << p));
        }
        for (int v = 0; v < 3; ++v)
            e.eq("side nodal value", o.nodal[v][k], v == a ? (1 - x[k]) / 2 : v == b ? (1 + x[k]) / 2 : 0);
        e.eq("side end value", o.bnodal[0][k], (1 - x[k]) / 2);
        e.eq("side end value", o.bnodal[1][k], (1 + x[k]) / 2);
    }
    return e.bad;
}
static std::string check_trace(const EdgeOps& o, const SideOps& in, const SideOps* ex, const V& x, L len, unsigned p, bool ccw, const std::string& where) {
    Tol e{1e-12L * (1 << p) * 10, "", where};
    size_t nd = p + 1, ng = in.ngp;
    e.is("trace sizes", o.ndof == nd && o.ngp == ng && o.ugp.size() == nd);
    if (!e.bad.empty())
        return e.bad;
    auto lam = [&](size_t i, size_t k) { return jac(i, 0, 0, ccw ? x[k] : -x[k]); };
    for (size_t k = 0; k < ng; ++k)
        for (size_t i = 0; i < nd; ++i) {
            e.eq("trace value", o.ugp[i][k], lam(i, k));
            e.eq("trace integral", o.ilam[k][i], in.integ[k][0] * lam(i, k), len);
            for (size_t j = 0; j < nd; ++j)
                e.eq("trace integral with two", o.ilamlam[j][k][i], in.integ[k][0] * lam(i, k) * lam(j, k), len);
            for (size_t j = 0; j < in.ugp.size(); ++j) {
                e.eq("trace and element integral", o.iphilam[j][k][i], in.integ[k][0] * in.ugp[j][k] * lam(i, k), len * (1 << p));
                if (ex)
                    e.eq("trace and outer element integral", o.iphilam_ex[j][k][i], in.integ[ng - 1 - k][0] * ex->ugp[j][k] * lam(i, ng - 1 - k), len * (1 << p));
            }
        }
    for (size_t i = 0; i < nd; ++i)
        for (size_t j = 0; j < nd; ++j) {
            L s = 0;
            for (size_t k = 0; k < ng; ++k)
                s += (L)o.ugp[i][k] * o.l2[k][j];
            e.eq("trace projection", s, i == j);
            e.eq("trace inverse mass", o.minv[i][j] * (len / 2) * 2 / (2 * j + 1), i == j);
        }
    return e.bad;
}
static std::string check_patch(unsigned p, const std::array<P2, 3>& a, const std::array<P2, 3>& b, unsigned s0, unsigned s1, bool shared) {
    Geo ga(a), gb(b);
    std::vector<P2> survey;
    for (auto& z : {P2{-1. / 3, -1. / 3}, P2{-0.9, 0.2}, P2{0.7, -0.8}, P2{-1, -1}, P2{1, -1}, P2{-0.5, 0.5}}) {
        L X, Y;
        ga.global(z[0], z[1], X, Y);
        survey.push_back({(double)X, (double)Y});
    }
    size_t nd = (p + 1) * (p + 2) / 2;
    M u(3, V(nd));
    for (size_t q = 0; q < 3; ++q)
        for (size_t k = 0; k < nd; ++k)
            u[q][k] = (((k + 1) * (q + 2) * 7) % 11 - 5) / 4.;
    PatchOps o    = patch(p, a, b, s0, s1, survey, u);
    std::string e = check_elem(o.elem[0], a, p, survey, u);
    if (e.empty())
        e = check_elem(o.elem[1], b, p, survey, u);
    for (int k = 0; k < 2 && e.empty(); ++k)
        for (unsigned s = 0; s < 3 && e.empty(); ++s) {
            V x;
            e = check_side(o.bound[k][s], k ? b : a, p, s, &x);
            for (int c = 0; c < 2 && e.empty(); ++c)
                e = check_trace(o.bedge[k][s][c], o.bound[k][s], nullptr, x, (k ? gb : ga).len(s), p, c == 0, fmt(" on boundary side %u", s) + show(k ? b : a));
        }
    if (!e.empty())
        return e;
    V x, y;
    e = check_side(o.in, a, p, s0, &x);
    if (e.empty())
        e = check_side(o.ex, b, p, s1, &y);
    for (int c = 0; c < 2 && e.empty(); ++c)
        e = check_trace(o.iedge[c], o.in, &o.ex, x, ga.len(s0), p, c == 0, fmt(" between side %u", s0) + show(a) + fmt(" and side %u", s1) + show(b));
    if (!e.empty())
        return e;
    if (shared) {
        Tol t{1e-12L * std::max(cond_of(ga), cond_of(gb)), "", fmt(" between side %u", s0) + show(a) + fmt(" and side %u", s1) + show(b)};
        size_t ng = o.in.ngp;
        L sz = 0;
        for (int i = 0; i < 3; ++i)
            sz = std::max({sz, std::fabs(ga.x[i]), std::fabs(ga.y[i]), ga.len(i)});
        for (size_t k = 0; k < ng; ++k)
            for (int d = 0; d < 2; ++d)
                t.eq("matching of points", o.in.f[d][k], o.ex.f[d][ng - 1 - k], sz);
        e = t.bad;
    }
    return e;
}
static std::vector<std::array<P2, 3>> triangles(int n, bool both) {
    std::vector<P2> q;
    for (int j = 0; j < n; ++j)
        for (int i = 0; i < n; ++i)
            q.push_back({(double)i, (double)j});
    std::vector<std::array<P2, 3>> r;
    for (auto& a : q)
        for (auto& b : q)
            for (auto& c : q) {
                double J = (b[0] - a[0]) * (c[1] - a[1]) - (c[0] - a[0]) * (b[1] - a[1]);
                if (J > 0 || (both && J < 0))
                    r.push_back({a, b, c});
            }
    return r;
}
static P2 place(const P2& x, int how) {
    switch (how) {
        case 1: return {0.3 * x[0] - 0.7 * x[1] + 0.1, 0.7 * x[0] + 0.3 * x[1] - 5.3};
        case 2: return {1e4 + 10 * x[0], -2e4 + 10 * x[1] + 0.5 * x[0]};
        case 3: return {1e-3 * x[0] - 1e-3, 2e-3 * x[1] + 1e-4};
        case 4: return {3e5 * x[0] + 1e5 * x[1], 1e5 * x[1]};
    }
    return x;
}
static void operators(std::vector<mcl::Job>& jobs, bool th) {
    auto T = triangles(th ? 5 : 4, true);
    spread(jobs, "shapes", T.size() * 5, 300, [=](size_t i) {
        auto t = T[i / 5];
        for (auto& x : t)
            x = place(x, i % 5);
        return check_shape(t);
    }, [=](size_t i) { return show(T[i / 5]); });
    auto C = triangles(th ? 4 : 3, false);
    int P = th ? 5 : 4;
    auto mk = [=](size_t i, unsigned& p, std::array<P2, 3>& a, std::array<P2, 3>& b, unsigned& s0, unsigned& s1, bool& shared) {
        Digits g{i};
        p        = 1 + g(P);
        auto t   = C[g(C.size())];
        s0       = g(3);
        s1       = g(3);
        shared   = g(2) == 0;
        int how  = i % 5;
        // the second triangle lies across the side, or (a levee) a little away from it
        P2 u = t[(s0 + 1) % 3], v = t[(s0 + 2) % 3];
        P2 w{(u[0] + v[0]) / 2 + (v[1] - u[1]) * (0.5 + 0.25 * (i % 3)), (u[1] + v[1]) / 2 - (v[0] - u[0]) * (0.5 + 0.25 * (i % 3))};
        w[0] += 0.2 * ((int)(i % 7) - 3);
        P2 off{0, 0};
        if (!shared)
            off = {0.3 * (v[1] - u[1]), -0.3 * (v[0] - u[0])};
        std::array<P2, 3> o;
        o[(s1 + 1) % 3] = {v[0] + off[0] * 1.5, v[1] + off[1] * 1.5};
        o[(s1 + 2) % 3] = {u[0] + off[0], u[1] + off[1]};
        o[s1]           = {w[0] + 2 * off[0], w[1] + 2 * off[1]};
        double J = (o[1][0] - o[0][0]) * (o[2][1] - o[0][1]) - (o[2][0] - o[0][0]) * (o[1][1] - o[0][1]);
        if (J <= 0.05) {  // keep it simple: straight across
            P2 m{(u[0] + v[0]) / 2, (u[1] + v[1]) / 2};
            o[s1] = {m[0] + (v[1] - u[1]) + 2 * off[0], m[1] - (v[0] - u[0]) + 2 * off[1]};
        }
        for (int k = 0; k < 3; ++k) {
            a[k] = place(t[k], how);
            b[k] = place(o[k], how);
        }
    };
    spread(jobs, "patches", P * C.size() * 18, 100, [=](size_t i) {
        unsigned p, s0, s1;
        std::array<P2, 3> a, b;
        bool sh;
        mk(i, p, a, b, s0, s1, sh);
        return check_patch(p, a, b, s0, s1, sh);
    }, [=](size_t i) {
        unsigned p, s0, s1;
        std::array<P2, 3> a, b;
        bool sh;
        mk(i, p, a, b, s0, s1, sh);
        return show(a) + fmt(" side %u joined to side %u", s0, s1) + show(b);
    });
    spread(jobs, "high degrees", (th ? 10 : 8) * 4, 1, [=](size_t i) {
        unsigned p, s0, s1;
        std::array<P2, 3> a, b;
        bool sh;
        mk(i * 37 * P, p, a, b, s0, s1, sh);
        return check_patch(1 + i / 4, a, b, s0, s1, sh);
    });
}

// ---- P17: fluxes and their derivatives --------------------------------------------------------------------
static void flux_ref(const double* q, double bath, double g, L fx[3], L fy[3]) {
    L h = (L)bath + q[0], u = q[1] / h, v = q[2] / h, pe = g * ((L)q[0] * q[0] / 2 + (L)q[0] * bath);
    fx[0] = q[1];
    fx[1] = u * q[1] + pe;
    fx[2] = u * q[2];
    fy[0] = q[2];
    fy[1] = u * q[2];
    fy[2] = v * q[2] + pe;
}
typedef std::array<L, 9> JL;
static JL mulL(const JL& a, const JL& b) {
    JL r{};
    for (int i = 0; i < 3; ++i)
        for (int j = 0; j < 3; ++j)
            for (int k = 0; k < 3; ++k)
                r[3 * i + j] += a[3 * i + k] * b[3 * k + j];
    return r;
}
// Jacobian of the normal flux
static JL jac_ref(const L* q, L bath, L g, L nx, L ny) {
    L h = bath + q[0], u = q[1] / h, v = q[2] / h;
    return {0, nx, ny, (g * h - u * u) * nx - u * v * ny, 2 * u * nx + v * ny, u * ny, -u * v * nx + (g * h - v * v) * ny, v * nx, u * nx + 2 * v * ny};
}
// |A| as the quadratic that takes |lambda| at the three eigenvalues
static JL abs_ref(const L* q, L bath, L g, L nx, L ny) {
    L h = bath + q[0], un = (q[1] * nx + q[2] * ny) / h, c = std::sqrt(g * h);
    L l[3] = {un - c, un, un + c};
    JL A = jac_ref(q, bath, g, nx, ny), r{};
    for (int k = 0; k < 3; ++k) {
        JL t{1, 0, 0, 0, 1, 0, 0, 0, 1};
        L d = 1;
        for (int m = 0; m < 3; ++m)
            if (m != k) {
                JL s = A;
                for (int i = 0; i < 3; ++i)
                    s[4 * i] -= l[m];
                t = mulL(t, s);
                d *= l[k] - l[m];
            }
        for (int i = 0; i < 9; ++i)
            r[i] += std::fabs(l[k]) / d * t[i];
    }
    return r;
}
static JL combine_ref(const std::string& kind, const L* q, L bath, L g, L nx, L ny) {
    JL A = jac_ref(q, bath, g, nx, ny), B = abs_ref(q, bath, g, nx, ny), r{};
    if (kind == "tau") {
        L h = bath + q[0], un = (q[1] * nx + q[2] * ny) / h;
        for (int i = 0; i < 3; ++i)
            r[4 * i] = std::sqrt(g * h) + std::fabs(un);
        return r;
    }
    for (int i = 0; i < 9; ++i)
        r[i] = kind == "A" ? A[i] : kind == "absA" ? B[i] : kind == "Aplus" ? (A[i] + B[i]) / 2 : (A[i] - B[i]) / 2;
    return r;
}
static std::string check_flux(const std::vector<std::array<double, 6>>& S, double g) {  // ze qx qy bath nx ny
    set_gravity(g);
    size_t N = S.size();
    M q(3, V(N)), n(2, V(N));
    V bath(N);
    for (size_t i = 0; i < N; ++i) {
        for (int v = 0; v < 3; ++v)
            q[v][i] = S[i][v];
        bath[i] = S[i][3];
        n[0][i] = S[i][4];
        n[1][i] = S[i][5];
    }
    const double g1 = g;  // the variants that take gravity as an argument
    auto F = fluxes(q, bath, n, g1);
    for (size_t i = 0; i < N; ++i) {
        const double* s = S[i].data();
        double nx = s[4], ny = s[5];
        L fx[3], fy[3], h = (L)s[3] + s[0], un = (s[1] * nx + s[2] * ny) / h, c = std::sqrt(g * h);
        flux_ref(s, s[3], g, fx, fy);
        std::string where = fmt(" at ze %g, q (%g, %g), depth %g, n (%g, %g), g %g", s[0], s[1], s[2], s[3], nx, ny, g);
        L vel = (std::fabs((L)s[1]) + std::fabs((L)s[2])) / h + c;
        Tol e{1e-12L, "", where};
        L fs = vel * vel * h + g * (std::fabs((L)s[0]) * (std::fabs((L)s[0]) + std::fabs((L)s[3])));
        for (int v = 0; v < 3; ++v) {
            e.eq("flux in x", F[i].fx[v], fx[v], fs);
            e.eq("flux in y", F[i].fy[v], fy[v], fs);
            e.eq("normal flux", F[i].fn[v], fx[v] * nx + fy[v] * ny, fs);
            e.eq("normal flux at a point", F[i].fn1[v], fx[v] * nx + fy[v] * ny, fs);
        }
        L Q[3] = {s[0], s[1], s[2]};
        JL jx = jac_ref(Q, s[3], g, 1, 0), jy = jac_ref(Q, s[3], g, 0, 1), jn = jac_ref(Q, s[3], g, nx, ny);
        L js = vel * vel + vel;
        for (int k = 0; k < 9; ++k) {
            e.eq("derivative of the flux in x", F[i].dfx[k], jx[k], js);
            e.eq("derivative of the flux in y", F[i].dfy[k], jy[k], js);
            e.eq("derivative of the normal flux", F[i].dfn[k], jn[k], js);
        }
        e.eq("stabilization at a point", F[i].tau1, c + std::fabs(un));
        Tol m{1e-10L, "", where};
        // derivatives: central differences of the reference in extended precision,
        // away from changes of sign of an eigenvalue
        L gap = std::min({std::fabs(un - c), std::fabs(un), std::fabs(un + c)});
        L as = js * (1 + vel / c) * (1 + vel / c) * 10;
        for (std::string kind : {"A", "absA", "Aplus", "Aminus", "tau"}) {
            JL w = combine_ref(kind, Q, s[3], g, nx, ny);
            auto& have = F[i].mat[kind];
            for (int k = 0; k < 9; ++k)
                m.eq(kind.c_str(), have[k], w[k], as);
            for (int v = 0; v < 3; ++v) {
                if (kind != "A" && gap < 1e-3L * (c + std::fabs(un)))
                    continue;
                static const char* VN[] = {"ze", "qx", "qy"};
                L d  = 1e-5L * (v == 0 ? h : h * c) * 0.05L;
                // fourth order differences
                JL D[4];
                const L at[4] = {-2, -1, 1, 2};
                for (int k = 0; k < 4; ++k) {
                    L X[3] = {Q[0], Q[1], Q[2]};
                    X[v] += at[k] * d;
                    D[k] = combine_ref(kind, X, s[3], g, nx, ny);
                }
                std::string name = "d" + kind + "_d" + VN[v];
                auto& hd = F[i].mat[name];
                L ds = as / (v == 0 ? h : h * c) * 10;
                for (int k = 0; k < 9; ++k)
                    m.eq(name.c_str(), hd[k], (D[0][k] - 8 * D[1][k] + 8 * D[2][k] - D[3][k]) / (12 * d), ds);
            }
        }
        if (e.bad.empty())
            e.bad = m.bad;
        if (!e.bad.empty())
            return e.bad;
    }
    return "";
}
static void flux_jobs(std::vector<mcl::Job>& jobs, bool th) {
    static const double ZE[] = {0, 0.25, -0.5, 1.75, -1.2}, BA[] = {2, 1.5, 0.01, 50, -0.3, 5000}, G[] = {9.81, 0.5, 1.};
    std::vector<double> FR = {0, 0.3, -0.3, 0.9, -1.4, 2.5, 1e-3};  // velocities in units of the wave speed
    if (th)
        FR.insert(FR.end(), {-2.2, 0.99, -1e-6, 1.01, 5.});
    std::vector<P2> NV;
    for (int k = 0; k < (th ? 24 : 8); ++k)
        NV.push_back({std::cos(2 * M_PI * (k + 0.) / (th ? 24 : 8)), std::sin(2 * M_PI * (k + 0.) / (th ? 24 : 8))});
    NV.push_back({0.6, -0.8});
    NV.push_back({-0.28, 0.96});
    size_t nf = FR.size(), nn = NV.size();
    auto mk = [=](size_t i) {
        Digits g{i};
        double gr = G[g(3)], ze = ZE[g(5)], b = BA[g(6)];
        if (ze + b <= 1e-3)
            ze = 0.4 - b;
        double h = ze + b, c = std::sqrt(gr * h);
        std::vector<std::array<double, 6>> S;
        for (size_t a = 0; a < nf; ++a)
            for (size_t d = 0; d < nf; ++d)
                for (size_t k = 0; k < nn; ++k)
                    S.push_back({ze, FR[a] * h * c, FR[d] * h * c, b, NV[k][0], NV[k][1]});
        return std::make_pair(S, gr);
    };
    spread(jobs, "states", 3 * 5 * 6, 3, [=](size_t i) {
        auto x = mk(i);
        return check_flux(x.first, x.second);
    }, [=](size_t i) {
        auto x = mk(i).first;
        return fmt("ze %g depth %g and %zu combinations of velocity and direction", x[0][0], x[0][3], x.size());
    }, nf * nf * nn);
}

int main(int argc, char** argv) {
    mcl::Options o = mcl::parse(argc, argv);
    bool th        = o.thorough();
    std::vector<mcl::Job> jobs;
    if (o.prop == "P14")
        integrators(jobs, th);
    if (o.prop == "P15")
        bases(jobs, th);
    if (o.prop == "P16")
        operators(jobs, th);
    if (o.prop == "P17")
        flux_jobs(jobs, th);
    mcl::Report rep;
    rep.states_counter      = "states";
    rep.transitions_counter = "cases";
    rep.validated_counter   = "cases";
    return mcl::run_jobs(o, jobs, rep);
}
