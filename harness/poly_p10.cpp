// Chebyshev and Legendre collocation schemes against nodes, weights and derivatives computed independently in long double.
#include "vt.hpp"
#include "polynomials/ebyshev.hpp"
#include "polynomials/legendre.hpp"
#include "polynomials/projection.hpp"
#include "polynomials/splines.hpp"
namespace {
typedef long double ld;
const ld PI = 3.14159265358979323846264338327950288L;

// ---- independent reference
void leg(int n, ld x, ld& p, ld& dp) // Legendre polynomial and derivative, |x| < 1
{
    ld a = 1, b = x;
    if (n == 0) { p = 1; dp = 0; return; }
    for (int k = 1; k < n; ++k) { ld t = ((2 * k + 1) * x * b - k * a) / (k + 1); a = b; b = t; }
    p = b; dp = n * (a - x * b) / (1 - x * x);
}
ld legv(int n, ld x) { ld a = 1, b = x; if (n == 0) return 1; for (int k = 1; k < n; ++k) { ld t = ((2 * k + 1) * x * b - k * a) / (k + 1); a = b; b = t; } return b; }
ld chebv(int n, ld x) { ld a = 1, b = x; if (n == 0) return 1; for (int k = 1; k < n; ++k) { ld t = 2 * x * b - a; a = b; b = t; } return b; }
std::vector<ld> ref_nodes(bool cheb, int P)
{
    std::vector<ld> x(P + 1);
    for (int i = 0; i <= P; ++i) x[i] = std::cos(PI * i / P);
    x[0] = 1; x[P] = -1;
    if (cheb) return x; // from +1 to -1
    std::reverse(x.begin(), x.end());
    for (int i = 1; i < P; ++i) // Newton on P'_n; the Chebyshev points are good starting values
        for (int it = 0; it < 60; ++it)
        {
            ld p, dp; leg(P, x[i], p, dp);
            ld ddp = (2 * x[i] * dp - (ld)P * (P + 1) * p) / (1 - x[i] * x[i]);
            x[i] -= dp / ddp;
        }
    return x;
}
// interpolatory weights for the nodes: the Lagrange basis integrated by a 24 point Gauss rule (exact to degree 47)
std::vector<ld> ref_weights(const std::vector<ld>& x)
{
    const int G = 24; std::vector<ld> gx(G), gw(G);
    for (int i = 0; i < G; ++i)
    {
        ld t = cosl(PI * (i + 0.75L) / (G + 0.5L)), p, dp;
        for (int it = 0; it < 60; ++it) { leg(G, t, p, dp); t -= p / dp; }
        leg(G, t, p, dp); gx[i] = t; gw[i] = 2 / ((1 - t * t) * dp * dp);
    }
    std::vector<ld> w;
    for (size_t i = 0; i < x.size(); ++i)
    {
        ld s = 0;
        for (int g = 0; g < G; ++g) { ld l = gw[g]; for (size_t j = 0; j < x.size(); ++j) if (j != i) l *= (gx[g] - x[j]) / (x[i] - x[j]); s += l; }
        w.push_back(s);
    }
    return w;
}
std::vector<ld> ref_diff(const std::vector<ld>& x) // D(i,j) = l_j'(x_i), row major
{
    const size_t n = x.size();
    std::vector<ld> D(n * n, 0), b(n, 1);
    for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) if (i != j) b[i] *= x[i] - x[j];
    for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) if (i != j) { D[i * n + j] = b[i] / b[j] / (x[i] - x[j]); D[i * n + i] += 1 / (x[i] - x[j]); }
    return D;
}

// ---- the integrand must be default constructible
std::vector<ld> g_coef; // Chebyshev coefficients in the local variable
ld g_a, g_b;
long g_calls, g_outside;
ld poly(ld t) { ld y = (2 * t - g_a - g_b) / (g_b - g_a), s = 0; for (size_t k = 0; k < g_coef.size(); ++k) s += g_coef[k] * chebv((int)k, y); return s; }
template <class S> struct Poly { S operator()(const S& t) const { ++g_calls; ld y = (2 * (ld)t - g_a - g_b) / (g_b - g_a); const ld e = 8 * (ld)std::numeric_limits<S>::epsilon() * (1 + (std::fabs(g_a) + std::fabs(g_b)) / std::fabs(g_b - g_a)); g_outside += !(y <= 1 + e && y >= -1 - e); return (S)poly(t); } };

template <class B, bool CHEB, int P, class S> struct Body
{
    static S static_eval(std::true_type, S x) { return B::eval(x); }
    static S static_eval(std::false_type, S) { return 0; }
    static typename B::q_weights_t static_cc(std::true_type, B& b) { return b.CCQWeights(); }
    static typename B::q_weights_t static_cc(std::false_type, B& b) { return b.QWeights(); }
    static void galerkin(vt::Case&, B&, double, std::true_type) {}
    static void galerkin(vt::Case& c, B& b, double u, std::false_type)
    {
        // projection of products of basis functions; the quadrature is exact up to degree 2P-1
        typename B::tensor_t G = b.getGalerkinTensor();
        std::vector<ld> x = ref_nodes(false, 12), w = ref_weights(x);
        for (int i = 0; i <= P; ++i) for (int j = 0; j <= P; ++j) for (int k = 0; k < P && i + j + k <= 2 * P - 1; ++k)
        {
            ld s = 0;
            for (size_t n = 0; n < x.size(); ++n) s += w[n] * legv(i, x[n]) * legv(j, x[n]) * legv(k, x[n]);
            if (!c.near(G(i, j, k), (double)(s * (2 * k + 1) / 2), 1e3 * u, "galerkin", vt::fmt("%d %d %d", i, j, k).c_str())) return;
        }
        c.event("galerkin");
    }
    static void body(vt::Case& c)
    {
        vt::Rng& r = c.rng;
        const double U = sizeof(S) == 4 ? 1.2e-7 : 2.3e-16;
        // rounding: Chebyshev formulas are direct; Legendre nodes are roots of a polynomial with coefficients growing like 2^P
        const double u = CHEB ? U * P * P * 8 : U * P * P * std::pow(2.5, P) * 4;
        typedef std::integral_constant<bool, CHEB> tag;
        c.nontrivial();
        // object in dirty memory
        alignas(B) static unsigned char mem[sizeof(B)];
        vt::dirty(mem, r.range(0, 255), sizeof mem);
        B& b = *new (mem) B;
        static std::vector<ld> x = ref_nodes(CHEB, P), w = ref_weights(x), D = ref_diff(x);
        const int n = P + 1;
        c.check(B::NUM_NODES == n && B::POLY_ORDER == P, "size");
        const typename B::nodes_t X = b.CPoints();
        const typename B::q_weights_t W = static_cc(tag(), b), Q = b.QWeights(), NF = b.NFactors();
        const typename B::diff_mat_t DM = b.D();
        for (int i = 0; i < n; ++i)
        {
            if (!c.near(X(i), (double)x[i], u, "nodes", vt::fmt("%d", i).c_str())) return;
            if (!c.near(W(i), (double)w[i], u, "integration-weights", vt::fmt("%d", i).c_str())) return;
            if (CHEB) if (!c.near(Q(i), (double)(i == 0 || i == P ? PI / P / 2 : PI / P), u, "chebyshev-weights", vt::fmt("%d", i).c_str())) return;
            for (int j = 0; j < n; ++j) if (!c.near(DM(i, j), (double)D[i * n + j], 4 * u * P * P, "differentiation-matrix", vt::fmt("%d,%d", i, j).c_str())) return;
        }
        if (r.chance(0.02))
        {   // the static functions and the spline wrapper return the same
            typedef polympc::Spline<B, 3> SP;
            c.check(B::compute_nodes() == X && B::compute_diff_matrix() == DM && B::compute_quad_weights() == Q && B::compute_int_weights() == W && B::compute_norm_factors() == NF, "static");
            c.check(SP::compute_nodes() == X && SP::compute_diff_matrix() == DM && SP::compute_quad_weights() == Q && SP::compute_int_weights() == W && SP::compute_norm_factors() == NF
                    && SP::NUM_NODES == 3 * P + 1 && SP::NUM_SEGMENTS == 3 && SP::POLY_ORDER == P, "spline-static");
            galerkin(c, b, u, tag());
            c.event("static");
        }
        // basis functions, inside, at and just outside the ends
        for (int k = 0; k < 6; ++k)
        {
            const S e = std::numeric_limits<S>::epsilon();
            const S pts[] = {(S)r.uniform(-1, 1), (S)1, (S)-1, 1 + e, -1 - e, (S)r.uniform(-1, 1)};
            const int m = r.range(0, P);
            const S y = pts[k];
            const double v = (double)(CHEB ? chebv(m, y) : legv(m, y));
            if (!c.near(b.eval(y, m), v, u + P * P * 4 * U, "basis", vt::fmt("T_%d(%.17g)", m, (double)y).c_str())) return;
            if (CHEB) if (!c.near(static_eval(tag(), y), (double)chebv(P, y), u + P * P * 4 * U, "basis-static", vt::fmt("T_%d(%.17g)", P, (double)y).c_str())) return;
        }
        { const S y = (S)r.uniform(-0.9, 0.9); c.near(B::weight(y), CHEB ? 1 / std::sqrt(1 - (double)y * y) : 1, 50 * U, "weight"); }
        // a random polynomial on a random interval
        const int deg = r.range(0, P);
        g_coef.assign(deg + 1, 0);
        ld mag = 0;
        for (auto& q : g_coef) { q = r.chance(0.2) ? 0 : r.normal(); mag += std::fabs(q); }
        if (r.chance(0.2)) { for (auto& q : g_coef) q = 0; g_coef[deg] = 1; mag = 1; } // a basis function
        const double len = r.logu(1e-2, 1e2);
        g_a = (ld)(S)r.uniform(-1, 1) * (r.chance(0.3) ? 10 : 1); g_b = (ld)(S)((double)g_a + len * (r.chance(0.2) ? -1 : 1));
        if (r.chance(0.2)) { g_a = -1; g_b = 1; }
        c.cfg = vt::fmt("%s order %d degree %d on [%.6g, %.6g]", CHEB ? "Chebyshev" : "Legendre", P, deg, (double)g_a, (double)g_b);
        c.mixin((uint64_t)deg); c.mixin((double)g_a); c.mixin((double)g_b); for (auto q : g_coef) c.mixin((double)q);
        // evaluating at t_scale*x+t_delta moves the local point by a rounding error relative to |a|+|b| over the length
        const double cond = (std::fabs((double)g_a) + std::fabs((double)g_b)) / std::fabs((double)(g_b - g_a));
        const double tol = (double)(mag + 1e-3L) * (u + U * P * P * (8 + 4 * cond)) * 16;
        // derivative of its nodal values
        typename B::nodes_t f;
        for (int i = 0; i < n; ++i) f(i) = (S)poly(g_a + (x[i] + 1) / 2 * (g_b - g_a));
        const typename B::nodes_t df = DM * f;
        for (int i = 0; i < n; ++i)
        {
            ld s = 0; // derivative in the local variable: sum of c_k k U_{k-1}
            for (int k = 1; k <= deg; ++k) { ld p0 = 1, p1 = 2 * x[i]; for (int q = 1; q < k - 1; ++q) { ld t = 2 * x[i] * p1 - p0; p0 = p1; p1 = t; } s += g_coef[k] * k * (k == 1 ? 1 : p1); }
            if (!c.near(df(i), (double)s, 8 * (double)(mag + 1e-3L) * u * P * P, "derivative", vt::fmt("node %d", i).c_str())) return;
        }
        // integral: exact up to degree P (Clenshaw-Curtis) or 2P-1 (Gauss-Lobatto)
        if (!CHEB && r.chance(0.5)) { const int d2 = r.range(P, 2 * P - 1); g_coef.resize(d2 + 1, 0); g_coef[d2] = r.normal(); mag += std::fabs(g_coef[d2]); c.event("gauss_degree"); }
        ld exact = 0;
        for (size_t k = 0; k < g_coef.size(); k += 2) exact += g_coef[k] * 2 / (1 - (ld)k * k);
        exact *= (g_b - g_a) / 2;
        g_calls = g_outside = 0;
        const S I = (g_a == -1 && g_b == 1 && r.chance(0.5)) ? b.template integrate<Poly<S>>() : b.template integrate<Poly<S>>((S)g_a, (S)g_b);
        c.near(I, (double)exact, std::fabs((double)(g_b - g_a)) * ((double)(mag + 1e-3L) * (u + U * P * P * (8 + 4 * cond)) * 16), "integral");
        c.check(g_calls == n && g_outside == 0, "integrand-calls", vt::fmt("%ld calls, %ld outside", g_calls, g_outside));
        // projection reproduces polynomials in the basis
        g_coef.resize(deg + 1);
        Poly<S> pf;
        Projection<B> pr(pf, (S)g_a, (S)g_b);
        if (r.chance(0.2)) { pr.project([](const S& t) { return (S)(t * t); }, S(-1), S(2)); pr.project(pf, (S)g_a, (S)g_b); } // a used projection
        const double ptol = tol * (P + 1) * 4;
        if (CHEB)
        {
            for (int k = 0; k <= P; ++k) if (!c.near(pr.coeff(k), k <= deg ? (double)g_coef[k] : 0, ptol, "projection-coefficient", vt::fmt("%d", k).c_str())) return;
        }
        for (int k = 0; k < 5; ++k)
        {
            const ld t = k == 0 ? g_a : k == 1 ? g_b : g_a + (ld)r.unit() * (g_b - g_a);
            if (!c.near(pr.eval((S)t), (double)poly(t), ptol * (1 + cond * U * P * P), "projection", vt::fmt("at %.17g", (double)t).c_str())) return;
        }
        c.event("projection");
    }
};
#define CHEB_(P, S) vt::Reg rc##P##S("chebyshev" #P #S, Body<polympc::Chebyshev<P, polympc::GAUSS_LOBATTO, S>, true, P, S>::body, (P > 8 ? 700 : 2000), 100000);
#define LEG_(P, S) vt::Reg rl##P##S("legendre" #P #S, Body<polympc::Legendre<P, polympc::GAUSS_LOBATTO, S>, false, P, S>::body, 1000, 50000);
#if PART == 0
CHEB_(1, double) CHEB_(2, double) CHEB_(3, double) CHEB_(4, double) CHEB_(5, double)
#elif PART == 1
CHEB_(6, double) CHEB_(7, double) CHEB_(8, double) CHEB_(11, double) CHEB_(16, double)
#elif PART == 2
CHEB_(3, float) CHEB_(4, float) CHEB_(5, float) CHEB_(8, float) CHEB_(12, double)
#elif PART == 3
LEG_(2, double) LEG_(3, double) LEG_(4, double) LEG_(5, double)
#elif PART == 4
LEG_(6, double) LEG_(7, double) LEG_(8, double) LEG_(10, double)
#elif PART == 6
CHEB_(9, double) CHEB_(10, double) CHEB_(13, double) CHEB_(14, double) CHEB_(15, double)
#elif PART == 7
CHEB_(17, double) CHEB_(18, double) CHEB_(19, double) CHEB_(20, double) CHEB_(21, double)
#elif PART == 8
CHEB_(24, double) CHEB_(31, double) CHEB_(1, float) CHEB_(2, float) CHEB_(9, float)
#else
LEG_(3, float) LEG_(4, float) LEG_(5, float) LEG_(9, double)
#endif
}
