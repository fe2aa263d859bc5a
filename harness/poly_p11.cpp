// Splines, Lagrange interpolation and polynomial arithmetic against long double evaluations.
#include "vt.hpp"
#include "polynomials/ebyshev.hpp"
#include "polynomials/legendre.hpp"
#include "polynomials/splines.hpp"
namespace {
typedef long double ld;
#ifdef V_F
typedef V_F F;
#else
#define V_F double
typedef double F;
#endif
const double U = sizeof(F) == 4 ? 1.2e-7 : 2.3e-16, TINY = 100 * (double)std::numeric_limits<F>::min();

// ---- cubic spline: the polynomial of the piece floor(x / length), clipped to the table, in the global variable
void spline(vt::Case& c)
{
    vt::Rng& r = c.rng;
    typedef polympc::EquidistantCubicSpline<F> S;
    typedef Eigen::AutoDiffScalar<Eigen::Matrix<F, 2, 1>> A;
    typedef Eigen::AutoDiffScalar<Eigen::Matrix<A, 2, 1>> A2;
    const int n = r.range(1, 9);
    const bool nice = r.chance(0.3); // whole numbers: the knots are exact
    const F len = nice ? (F)r.range(1, 4) : (F)r.logu(0.05, 20);
    typename S::coeffs_matrix_type co(4, n);
    for (int j = 0; j < n; ++j) for (int i = 0; i < 4; ++i) co(i, j) = r.chance(0.2) ? (F)0 : (F)(r.normal() * std::pow(1.0 / len, i));
    S s(co, len), viaset; viaset.coefficients() = co; viaset.segment_length() = len;
    const S& use = r.chance(0.5) ? s : viaset;
    c.check(use.coefficients() == co && use.segment_length() == len, "accessors");
    c.cfg = vt::fmt("%d pieces of length %.9g", n, (double)len);
    c.nontrivial();
    for (int k = 0; k < 12; ++k)
    {
        F x;
        switch (r.range(0, 5))
        {
        case 0: x = (F)r.uniform(-2.0 * len, (n + 2.0) * len); break;
        case 1: x = len * (F)r.range(-1, n + 1); break;                       // knots
        case 2: x = std::nextafter(len * (F)r.range(0, n), r.chance(0.5) ? (F)1e9 : (F)-1e9); break;
        case 3: x = len * n; break;                                           // right end
        case 4: x = (F)(r.sign() * r.logu(1, 1e3)) * len; break;              // far outside
        default: x = (F)r.uniform(0, n * len);
        }
        c.mixin((double)x);
        { const ld e = (ld)x / len, k = std::round(e); if (!nice && e != k && std::fabs(e - k) < 4 * U * (1 + std::fabs(k))) { use.eval(x); c.event("rounding_at_knot"); continue; } }
        const ld q = nice ? std::floor((ld)x / len) : std::floor((ld)(F)(x / len));
        const int idx = q < 0 ? 0 : q > n - 1 ? n - 1 : (int)q;
        c.event(q < 0 ? "left_of_table" : q > n - 1 ? "right_of_table" : "inside");
        ld v = 0, d = 0, h = 0, mag = 0;
        for (int i = 3; i >= 0; --i) { v = v * x + co(i, idx); mag = mag * std::fabs((ld)x) + std::fabs((ld)co(i, idx)); }
        d = co(1, idx) + 2 * (ld)co(2, idx) * x + 3 * (ld)co(3, idx) * x * x; h = 2 * (ld)co(2, idx) + 6 * (ld)co(3, idx) * x;
        ld dmag = std::fabs((ld)co(1, idx)) + 2 * std::fabs((ld)co(2, idx) * x) + 3 * std::fabs((ld)co(3, idx) * x * x), hmag = 2 * std::fabs((ld)co(2, idx)) + 6 * std::fabs((ld)co(3, idx) * x);
        const std::string at = vt::fmt("at %.17g (piece %d)", (double)x, idx);
        if (!c.near(use.eval(x), (double)v, 16 * U * (double)mag + TINY, "value", at.c_str())) return;
        // x = 1.5 a - 0.5 b as independent variables
        A ax(x); ax.derivatives() << (F)1.5, (F)-0.5;
        const A ay = use.eval(ax);
        if (!c.near(ay.value(), (double)v, 16 * U * (double)mag + TINY, "ad-value", at.c_str())) return;
        if (!c.near(ay.derivatives()(0), (double)(1.5L * d), 64 * U * (double)dmag + TINY, "ad-derivative", at.c_str()) || !c.near(ay.derivatives()(1), (double)(-0.5L * d), 64 * U * (double)dmag + TINY, "ad-derivative", at.c_str())) return;
        A2 bx; bx.value() = ax;
        for (int i = 0; i < 2; ++i) { bx.derivatives()(i).value() = ax.derivatives()(i); bx.derivatives()(i).derivatives().setZero(); }
        const A2 by = use.eval(bx);
        if (!c.near(by.value().value(), (double)v, 16 * U * (double)mag + TINY, "ad2-value", at.c_str())) return;
        if (!c.near(by.derivatives()(0).value(), (double)(1.5L * d), 64 * U * (double)dmag + TINY, "ad2-derivative", at.c_str())) return;
        if (!c.near(by.derivatives()(0).derivatives()(1), (double)(-0.75L * h), 128 * U * (double)hmag + TINY, "ad2-second", at.c_str())) return;
    }
}

// ---- Lagrange basis and interpolation of vector data
template <int NN, int D, bool DYN> void lagrange(vt::Case& c)
{
    vt::Rng& r = c.rng;
    typedef Eigen::Matrix<F, DYN ? Eigen::Dynamic : NN, 1> X;
    typedef Eigen::Matrix<F, DYN ? Eigen::Dynamic : NN, DYN ? Eigen::Dynamic : NN> B;
    typedef Eigen::Matrix<F, D, DYN ? Eigen::Dynamic : NN> V;
    const int n = DYN ? r.range(2, NN) : NN;
    X x(n);
    const double a = r.chance(0.5) ? 0 : r.uniform(-1, 1), len = r.logu(0.1, 5);
    const int kind = r.range(0, 3);
    for (int i = 0; i < n; ++i)
        x(i) = (F)(a + len * (kind == 0 ? (1 + std::cos(M_PI * i / (n - 1))) / 2 : kind == 1 ? (1 - std::cos(M_PI * i / (n - 1))) / 2 : (i + (kind == 2 ? 0 : r.uniform(-0.3, 0.3))) / (double)(n - 1)));
    if (r.chance(0.2)) for (int i = n - 1; i > 0; --i) std::swap(x(i), x(r.range(0, i))); // any order
    B b(n, n);
    if (r.chance(0.5)) b.setConstant(std::numeric_limits<F>::quiet_NaN());
    polympc::LagrangeSpline::compute_lagrange_basis(x, b);
    c.cfg = vt::fmt("%d nodes of kind %d on [%.6g, %.6g], dimension %d", n, kind, a, a + len, D); c.nontrivial();
    c.mixin(a); c.mixin(len); c.mixm(x);
    // the monomial representation limits the accuracy: condition of the evaluation
    V val(D, n);
    for (int i = 0; i < D; ++i) for (int j = 0; j < n; ++j) val(i, j) = (F)r.normal();
    const bool atn = r.chance(0.3);
    const int nd = r.range(0, n - 1);
    const F t = atn ? x(nd) : (F)(a + len * r.uniform(-0.05, 1.05));
    ld cond = 0, tp = 1;
    for (int k = 0; k < n; ++k) { for (int i = 0; i < n; ++i) cond += std::fabs((ld)b(i, k)) * tp; tp *= std::max(std::fabs((ld)t), (ld)1e-30); }
    // coefficients of the basis are themselves computed with a relative error of the product of (|t| + |x_j|)
    for (int i = 0; i < n; ++i)
    {
        ld p = 1; for (int j = 0; j < n; ++j) if (j != i) p *= (std::fabs((ld)t) + std::fabs((ld)x(j)) + 1e-30L) / std::fabs((ld)x(i) - x(j));
        cond += p;
    }
    for (int i = 0; i < n; ++i)
    {   // the evaluation at its own node, by which the basis is normalised, cancels too
        ld p = 1; for (int j = 0; j < n; ++j) if (j != i) p *= (std::fabs((ld)x(i)) + std::fabs((ld)x(j)) + 1e-30L) / std::fabs((ld)x(i) - x(j));
        ld l = 1; for (int j = 0; j < n; ++j) if (j != i) l *= std::fabs((ld)t - x(j)) / std::fabs((ld)x(i) - x(j));
        cond += p * (1 + l);
    }
    const double tol = 40 * U * n * (double)cond;
    if (!(tol < 1e-2)) { c.event("ill_conditioned"); return; }
    c.event("interpolated");
    // basis rows are the basis polynomials, lowest power first
    ld sum = 0;
    std::vector<ld> lb(n);
    for (int i = 0; i < n; ++i)
    {
        ld e = 0; for (int k = n - 1; k >= 0; --k) e = e * t + b(i, k);
        ld l = 1; for (int j = 0; j < n; ++j) if (j != i) l *= ((ld)t - x(j)) / ((ld)x(i) - x(j));
        lb[i] = l; sum += e;
        if (!c.near((double)e, (double)l, tol, "basis", vt::fmt("%d at %.17g", i, (double)t).c_str())) return;
    }
    c.near((double)sum, 1, tol * n, "partition-of-unity");
    const Eigen::Matrix<F, D, 1> y = polympc::LagrangeSpline::eval(t, val, b);
    ld vm = 1; for (int i = 0; i < D; ++i) for (int j = 0; j < n; ++j) vm = std::max(vm, std::fabs((ld)val(i, j)));
    for (int i = 0; i < D; ++i)
    {
        ld e = 0; for (int j = 0; j < n; ++j) e += lb[j] * val(i, j);
        if (!c.near(y(i), (double)e, tol * (double)vm * n, "interpolation", vt::fmt("component %d at %.17g", i, (double)t).c_str())) return;
        if (atn && !c.near(y(i), val(i, nd), tol * (double)vm * n, "interpolation/at-node", vt::fmt("component %d", i).c_str())) return;
    }
    if (atn) c.event("at_node");
}

// ---- truncated product and derivative of coefficient vectors
template <int N> void arith(vt::Case& c)
{
    vt::Rng& r = c.rng;
    typedef Eigen::Matrix<F, N, 1> V;
    V p, q;
    const bool ints = r.chance(0.4);
    auto gen = [&](V& v) { const int d = r.range(-1, N - 1); for (int i = 0; i < N; ++i) v(i) = i > d || r.chance(0.25) ? (F)0 : ints ? (F)r.range(-9, 9) : (F)r.normal(); };
    gen(p); gen(q);
    c.mixm(p); c.mixm(q); c.nontrivial();
    c.cfg = vt::fmt("order %d", N - 1);
    if (p.isZero() || q.isZero()) c.event("zero_polynomial");
    char dirty[256]; volatile char* dv = dirty; for (int i = 0; i < 256; ++i) dv[i] = (char)r.range(1, 255); // leave something on the stack
    const V m = polympc::polymath::poly_mul(p, q), d = polympc::polymath::poly_diff(p);
    for (int k = 0; k < N; ++k)
    {
        ld s = 0, mag = 0;
        for (int i = 0; i <= k; ++i) { s += (ld)p(i) * q(k - i); mag += std::fabs((ld)p(i) * q(k - i)); }
        // coefficients below epsilon may be treated as zero
        if (!c.near(m(k), (double)s, ints ? 0 : 8 * N * U * (double)(mag + 10), "poly_mul", vt::fmt("coefficient %d", k).c_str())) return;
        if (!c.near(d(k), k + 1 < N ? (double)((k + 1) * (ld)p(k + 1)) : 0, 4 * U * N * 6, "poly_diff", vt::fmt("coefficient %d", k).c_str())) return;
    }
    const V m2 = polympc::polymath::poly_mul(q, p);
    c.nearm(m, m2, ints ? 0 : 16 * N * U * 100, "poly_mul/commutes");
    c.event("products");
}
#define ST2(x) #x
#define ST(x) ST2(x)
vt::Reg r1("cubic_spline_" ST(V_F), spline, 10000, 400000);
vt::Reg r2("lagrange_fixed5_" ST(V_F), lagrange<5, 3, false>, 10000, 400000);
vt::Reg r3("lagrange_fixed2_" ST(V_F), lagrange<2, 1, false>, 5000, 400000);
vt::Reg r4("lagrange_dynamic_" ST(V_F), lagrange<9, 2, true>, 10000, 400000);
vt::Reg r5("poly_arith4_" ST(V_F), arith<4>, 20000, 400000);
vt::Reg r6("poly_arith9_" ST(V_F), arith<9>, 20000, 400000);
vt::Reg r7("poly_arith2_" ST(V_F), arith<2>, 20000, 400000);
}
