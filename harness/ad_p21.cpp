// The automatic differentiation scalar against an independent jet arithmetic.
#include <Eigen/Dense>
#include "autodiff/AutoDiffScalar.h"
#include "expr.hpp"
#ifndef A_F
#define A_F double
#define A_N 3
#define A_DYN 0
#define A_SECOND 0
#endif
typedef A_F F;
static const int N = A_N;
namespace {
#if A_DYN
typedef Eigen::Matrix<F, Eigen::Dynamic, 1> D;
#else
typedef Eigen::Matrix<F, N, 1> D;
#endif
typedef Eigen::AutoDiffScalar<D> A;
typedef Eigen::AutoDiffScalar<Eigen::Matrix<A, N, 1>> A2;
const double U = sizeof(F) == 4 ? 1.2e-7 : 2.3e-16;
void body(vt::Case& c)
{
    vt::Rng& r = c.rng;
    std::vector<std::vector<double>> xs(2), ps(2);
    for (auto& x : xs) for (int i = 0; i < N; ++i) x.push_back((double)(F)r.uniform(-2, 2));
    for (auto& x : ps) for (int i = 0; i < 2; ++i) x.push_back((double)(F)r.uniform(-2, 2));
    ex::Prog p = ex::random_prog(r, N, 2, r.range(2, 14), xs, ps, A_DYN); // whole expressions of constants without derivative storage are a known limit of dynamic sizes (also in Eigen's own version before 3.4)
    for (auto& n : p.n) n.c = (double)(F)n.c;
    c.cfg = p.str();
    for (auto& n : p.n) { c.mixin((uint64_t)(n.op * 1000 + n.a * 31 + n.b)); c.event(vt::fmt("op%02d", n.op)); }
    c.nontrivial();
    Eigen::Matrix<F, 2, 1> par;
    for (size_t k = 0; k < xs.size(); ++k)
    {
        par << (F)ps[k][0], (F)ps[k][1];
        ex::ld mag = 1;
        ex::Jet j = ex::jet(p, xs[k], ps[k], &mag);
        const double tol = 3000 * U * (double)(mag * mag);
        Eigen::Matrix<F, N, 1> xv; for (int i = 0; i < N; ++i) xv(i) = (F)xs[k][i];
#if A_SECOND
        Eigen::Matrix<A2, N, 1> x;
        for (int i = 0; i < N; ++i)
        {
            x(i).value().value() = xv(i); x(i).value().derivatives() = D::Unit(N, i);
            for (int q = 0; q < N; ++q) { x(i).derivatives()(q).value() = q == i; x(i).derivatives()(q).derivatives().setZero(); }
        }
        A2 y = ex::run<A2, F, true>(p, x, par);
        if (!c.near(y.value().value(), j.v, tol, "AD2/value")) return;
        for (int i = 0; i < N; ++i)
        {
            if (!c.near(y.value().derivatives()(i), j.g[i], tol, "AD2/gradient", vt::fmt("d%d", i).c_str())) return;
            if (!c.near(y.derivatives()(i).value(), j.g[i], tol, "AD2/gradient-outer", vt::fmt("d%d", i).c_str())) return;
            for (int q = 0; q < N; ++q) if (!c.near(y.derivatives()(i).derivatives()(q), j.h[i * N + q], tol, "AD2/hessian", vt::fmt("d%d%d", i, q).c_str())) return;
        }
#else
        Eigen::Matrix<A, N, 1> x;
        for (int i = 0; i < N; ++i) x(i) = A(xv(i), N, i);
        A y = ex::run<A, F, false>(p, x, par);
        if (!c.near(y.value(), j.v, tol, "AD/value")) return;
        c.check(y.value() == ex::run<A_F, F, false>(p, xv, par) || std::fabs((double)y.value() - (double)ex::run<A_F, F, false>(p, xv, par)) <= tol, "AD/value-vs-plain");
        D g = y.derivatives();
        if (g.size() == 0) { c.event("no_derivatives"); for (int i = 0; i < N; ++i) if (!c.near(0, j.g[i], tol, "AD/gradient-empty")) return; continue; } // an untouched dynamic constant
        for (int i = 0; i < N; ++i) if (!c.near(g(i), j.g[i], tol, "AD/gradient", vt::fmt("d%d", i).c_str())) return;
        // comparisons see values only
        A a = x(0), b = x(N - 1); const F va = xv(0), vb = xv(N - 1);
        c.check((a < b) == (va < vb) && (a <= b) == (va <= vb) && (a > b) == (va > vb) && (a >= b) == (va >= vb) && (a == b) == (va == vb) && (a != b) == (va != vb), "AD/compare");
        c.check((a < vb) == (va < vb) && (a >= vb) == (va >= vb) && (va < b) == (va < vb) && (va >= b) == (va >= vb) && (a == va) && !(a != va), "AD/compare-scalar");
#endif
    }
    if (p.constant) c.event("constant_program");
}
// one operation at arguments a random program never meets: tiny, huge, zero, a rounding error from a kink, at the edge of the domain
typedef long double ld;
double argument(vt::Rng& r, int kind)
{
    const double big = sizeof(F) == 4 ? 6 : 60;
    switch (kind)
    {
    case 0: return r.sign() * std::pow(10, -r.uniform(0, big));                  // any small magnitude
    case 1: return r.sign() * std::pow(10, r.uniform(0, big));                   // any large magnitude
    case 2: return r.sign() * r.range(0, 4);                                     // whole numbers
    case 3: return r.range(-3, 3) * (1 + r.sign() * (sizeof(F) == 4 ? 1.2e-7 : 2.3e-16)); // next to a whole number
    default: return r.uniform(-3, 3);
    }
}
#if A_SECOND
typedef A2 T;
T lift(F v, const std::vector<double>& g) { T x; x.value().value() = v; for (int i = 0; i < N; ++i) { x.value().derivatives()(i) = (F)g[i]; x.derivatives()(i).value() = (F)g[i]; x.derivatives()(i).derivatives().setZero(); } return x; }
F val(const T& y) { return y.value().value(); }
F gr(const T& y, int i) { return y.derivatives()(i).value(); }
#else
typedef A T;
T lift(F v, const std::vector<double>& g) { D d(N); for (int i = 0; i < N; ++i) d(i) = (F)g[i]; return T(v, d); }
F val(const T& y) { return y.value(); }
F gr(const T& y, int i) { return y.derivatives().size() ? y.derivatives()(i) : F(0); } // an empty dynamic derivative vector stands for zero
#endif
bool fin(ld v) { return std::isfinite((double)v) && std::isfinite((double)(F)v) && (v == 0 || std::fabs((double)(F)v) > (double)std::numeric_limits<F>::min() * 1e6); }
// y against f0, gradient fa*ga + fb*gb, Hessian faa ga ga' + fab (ga gb' + gb ga') + fbb gb gb'
void judge(vt::Case& c, const char* name, const T& y, ld f0, ld fa, ld fb, ld faa, ld fab, ld fbb, const std::vector<double>& ga, const std::vector<double>& gb, ld e1, ld e2, ld s2 = 0)
{
    if (!fin(f0) || !fin(fa) || !fin(fb)) return;
    c.event(name);
    const std::string n = name;
    if (!c.near(val(y), (double)f0, 8 * U * std::fabs((double)f0), ("edge-value/" + n).c_str())) return;
    for (int i = 0; i < N; ++i) if (!c.near(gr(y, i), (double)(fa * ga[i] + fb * gb[i]), 32 * U * (double)((1 + e1) * (fabsl(fa * ga[i]) + fabsl(fb * gb[i]))), ("edge-gradient/" + n).c_str(), vt::fmt("d%d", i).c_str())) return;
#if A_SECOND
    if (!fin(faa) || !fin(fab) || !fin(fbb)) return;
    for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j)
    {
        const ld t1 = faa * ga[i] * ga[j], t2 = fab * ga[i] * gb[j], t3 = fab * gb[i] * ga[j], t4 = fbb * gb[i] * gb[j];
        if (!c.near(y.derivatives()(i).derivatives()(j), (double)(t1 + t2 + t3 + t4), 64 * U * (double)((1 + e2) * (fabsl(t1) + fabsl(t2) + fabsl(t3) + fabsl(t4) + s2 * (fabsl(ga[i]) + fabsl(gb[i])) * (fabsl(ga[j]) + fabsl(gb[j])))), ("edge-hessian/" + n).c_str(), vt::fmt("d%d%d", i, j).c_str())) return;
    }
#endif
}
void edge(vt::Case& c)
{
    using std::sin; using std::cos; using std::tan; using std::exp; using std::log; using std::sqrt; using std::tanh; using std::sinh; using std::cosh; using std::asin; using std::acos; using std::abs; using std::min; using std::max; using std::pow;
    vt::Rng& r = c.rng; c.nontrivial();
    const F v = (F)argument(r, r.range(0, 4)); F w = (F)argument(r, r.range(0, 4)); const int near = r.range(0, 3);
    if (near == 0) w = std::nextafter(v, (F)(r.sign() * 1e30)); else if (near == 1) w = v + (F)(r.sign() * std::fabs((double)v) * (sizeof(F) == 4 ? 1e-5 : 1e-13));
    std::vector<double> ga(N), gb(N); for (auto& g : ga) g = (double)(F)(r.chance(0.2) ? 0 : r.uniform(-2, 2)); for (auto& g : gb) g = (double)(F)(r.chance(0.2) ? 0 : r.uniform(-2, 2));
    const std::vector<double> z(N, 0);
    const T x = lift(v, ga), u = lift(w, gb);
    const ld a = v, b = w;
    c.cfg = vt::fmt("x=%.17g y=%.17g", (double)v, (double)w); c.mixin((double)v); c.mixin((double)w);
    auto one = [&](const char* n, const T& y, ld f0, ld f1, ld f2, ld e1 = 0, ld e2 = 0) { judge(c, n, y, f0, f1, 0, f2, 0, 0, ga, z, e1, e2); };
    const ld m = fabsl(a);
    if (m < 1e4) { const ld s = sinl(a), k = cosl(a); one("sin", sin(x), s, k, -s); one("cos", cos(x), k, -s, -k); if (fabsl(k) > 1e-3L) one("tan", tan(x), s / k, 1 / (k * k), 2 * s / (k * k * k), 4, 8); }
    if (m < 60) { const ld e = expl(a); one("exp", exp(x), e, e, e, m, m); const ld t = tanhl(a), q = 1 - t * t; one("sinh", sinh(x), sinhl(a), coshl(a), sinhl(a), m, m); one("cosh", cosh(x), coshl(a), sinhl(a), coshl(a), m, m);
        if (m < 8) one("tanh", tanh(x), t, 1 / (coshl(a) * coshl(a)), -2 * t * q, 1 / q, 1 / q); }
    if (a > 0) { one("log", log(x), logl(a), 1 / a, -1 / (a * a)); const ld s = sqrtl(a); one("sqrt", sqrt(x), s, 0.5L / s, -0.25L / (s * a)); }
    if (m < 1) { const ld q = 1 - a * a, s = sqrtl(q); one("asin", asin(x), asinl(a), 1 / s, a / (q * s), 1 / q, 1 / q); one("acos", acos(x), acosl(a), -1 / s, -a / (q * s), 1 / q, 1 / q); }
    if (a != 0) one("abs", abs(x), fabsl(a), a < 0 ? -1 : 1, 0);
    else { const T y = abs(x); for (int i = 0; i < N; ++i) if (!c.check(val(y) == 0 && std::fabs((double)gr(y, i)) <= std::fabs(ga[i]), "edge-abs-at-zero")) return; }
    one("neg", -x, -a, -1, 0); one("square", x * x, a * a, 2 * a, 2);
#if !A_SECOND
    if (m < 1e9) for (double p : {1.0, 2.0, 3.0, 4.0}) one("pow", pow(x, (F)p), powl(a, p), p * powl(a, p - 1), 0);
    if (a > 0 && m < 1e9) for (double p : {0.5, 1.5, -1.0, -2.0, 2.5}) one("pow", pow(x, (F)p), powl(a, p), p * powl(a, p - 1), 0);
    if (a < 0 && m < 1e9) for (double p : {-1.0, -3.0}) one("pow", pow(x, (F)p), powl(a, p), p * powl(a, p - 1), 0);
#endif
    auto two = [&](const char* n, const T& y, ld f0, ld fa, ld fb, ld faa, ld fab, ld fbb, ld s2 = 0) { judge(c, n, y, f0, fa, fb, faa, fab, fbb, ga, gb, 1, 1, s2); };
    two("mul", x * u, a * b, b, a, 0, 1, 0);
    two("add", x + u, (F)(v + w), 1, 1, 0, 0, 0); two("sub", x - u, (F)(v - w), 1, -1, 0, 0, 0);
    const ld lim = sizeof(F) == 4 ? 1e-3L : 1e-30L;
    if (fabsl(b) > lim && fabsl(b) < 1 / lim && m < 1 / lim && m > lim)
    {
        two("div", x / u, a / b, 1 / b, -a / (b * b), 0, -1 / (b * b), 2 * a / (b * b * b));
        const ld q = a * a + b * b;
        using std::atan2; two("atan2", atan2(x, u), atan2l(a, b), b / q, -a / q, -2 * a * b / (q * q), (a * a - b * b) / (q * q), 2 * a * b / (q * q), 1 / q);
    }
    if (a != b)
    {
        two("min", min(x, u), a < b ? a : b, a < b, a > b, 0, 0, 0); two("max", max(x, u), a > b ? a : b, a > b, a < b, 0, 0, 0);
        two("min", (min)(x, u), a < b ? a : b, a < b, a > b, 0, 0, 0); two("max", (max)(x, u), a > b ? a : b, a > b, a < b, 0, 0, 0); // the generic ones of the standard library
        two("min_scalar", min(x, w), a < b ? a : b, a < b, 0, 0, 0, 0); two("max_scalar", max(x, w), a > b ? a : b, a > b, 0, 0, 0, 0);
        two("scalar_min", min(w, x), a < b ? a : b, a < b, 0, 0, 0, 0); two("scalar_max", max(w, x), a > b ? a : b, a > b, 0, 0, 0, 0);
    }
    // an object combined with itself
    { T t = x; t += t; two("self_add", t, 2 * a, 2, 0, 0, 0, 0); t = x; t *= t; two("self_mul", t, a * a, 2 * a, 0, 2, 0, 0); t = x; t -= t; two("self_sub", t, 0, 0, 0, 0, 0, 0); }
    if (m > lim && m < 1 / lim) { T t = x; t /= t; two("self_div", t, 1, 0, 0, 0, 0, 0, 4 / (a * a)); }
    if (!c.check((x < u) == (v < w) && (x <= u) == (v <= w) && (x > u) == (v > w) && (x >= u) == (v >= w) && (x == u) == (v == w) && (x != u) == (v != w), "edge-compare")) return;
}
#define CAT2(a, b, c, d, e) a##b##_##c##d##e
#define CAT1(a, b, c, d, e) CAT2(a, b, c, d, e)
#define STR2(x) #x
#define STR1(x) STR2(x)
vt::Reg reg(A_SECOND ? "ad_second" STR1(A_N) STR1(A_F) : A_DYN ? "ad_dynamic" STR1(A_N) : "ad_first" STR1(A_N) STR1(A_F), body, 12000, 1000000);
vt::Reg rege(A_SECOND ? "edge_second" STR1(A_N) STR1(A_F) : A_DYN ? "edge_dynamic" STR1(A_N) : "edge_first" STR1(A_N) STR1(A_F), edge, 12000, 1000000);
}
