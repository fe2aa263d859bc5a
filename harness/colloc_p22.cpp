// Stand-alone collocation functors (ODE dense and sparse, cost, constraints) against the reference transcription.
// -D K_P K_S K_X K_U K_NP K_Y K_F
#include "control/ode_collocation.hpp"
#include "control/sparse_ode_collocation.hpp"
#include "control/cost_collocation.hpp"
#include "control/constraints_collocation.hpp"
#include "polynomials/ebyshev.hpp"
#include "ocp_ref.hpp"
#include <new>
#include <memory>
namespace {
typedef K_F F; typedef Eigen::MatrixXd M; using oc::L;
const oc::Spec* g_spec;
const double U_ = std::numeric_limits<F>::epsilon();
const bool SINGLE = sizeof(F) == 4;

F cst(F c, F*) { return c; }
template <class T> T cst(F c, T*) { return T(typename T::Scalar(c)); }
template <class T> void put(T& t, const T& v) { t = v; }
template <class T> typename std::enable_if<!std::is_same<T, F>::value>::type put(T& t, const F& v) { t = cst(v, (T*)nullptr); }
template <class T, class X, class Uu, class P> T ev(const ex::Prog& p, const X& x, const Uu& u, const P& par)
{
    using std::sin; using std::cos; using std::exp; using std::sqrt;
    std::vector<T> v; v.reserve(p.n.size());
    for (const ex::Node& n : p.n)
    {
        T t = cst(F(0), (T*)nullptr); const T c = cst((F)n.c, (T*)nullptr);
        switch (n.op)
        {
        case ex::VAR: if (n.a < K_X) put(t, x(n.a)); else if (n.a < K_X + K_U) put(t, u(n.a - K_X)); else put(t, (F)par(n.a - K_X - K_U)); break;
        case ex::CST: t = c; break;
        case ex::ADD: t = v[n.a] + v[n.b]; break;
        case ex::SUB: t = v[n.a] - v[n.b]; break;
        case ex::MUL: t = v[n.a] * v[n.b]; break;
        case ex::DIV: t = v[n.a] / v[n.b]; break;
        case ex::ADDC: t = v[n.a] + c; break;
        case ex::MULC: t = v[n.a] * c; break;
        case ex::NEG: t = -v[n.a]; break;
        case ex::SIN: t = sin(v[n.a]); break;
        case ex::COS: t = cos(v[n.a]); break;
        case ex::EXP: t = exp(v[n.a]); break;
        case ex::SQRT: t = sqrt(v[n.a]); break;
        default: abort();
        }
        v.push_back(t);
    }
    return v.back();
}
struct Types { using Scalar = F; using State = Eigen::Matrix<F, K_X, 1>; using Control = Eigen::Matrix<F, K_U, 1>; using Parameters = Eigen::Matrix<F, K_NP, 1>; };
struct Dyn : Types
{
    const oc::Spec* s = g_spec;
    template <class X, class Uu, class P, class Y> void operator()(const X& x, const Uu& u, const P& p, Y& y) const { for (int i = 0; i < K_X; ++i) y(i) = ev<typename Y::Scalar>(s->f[i], x, u, p); }
};
struct Con
{
    template <class X, class Uu, class P, class Y> void operator()(const X& x, const Uu& u, const P& p, Y& y) const { for (int i = 0; i < K_Y; ++i) y(i) = ev<typename Y::Scalar>(g_spec->g[i], x, u, p); }
};
struct Lag : Types { const oc::Spec* s = g_spec; template <class X, class Uu, class P, class Y> void operator()(const X& x, const Uu& u, const P& p, Y& y) const { y = ev<Y>(s->lag, x, u, p); } };
struct May { const oc::Spec* s = g_spec; template <class X, class Y> void operator()(const X& x, Y& y) const { y = ev<Y>(s->may, x, x, Eigen::Matrix<F, K_NP + 1, 1>::Zero()); } };
typedef polympc::Chebyshev<K_P, polympc::GAUSS_LOBATTO, F> Poly;
typedef polympc::ode_collocation<Dyn, Poly, K_S> Ode;
typedef polympc::sparse_ode_collocation<Dyn, Poly, K_S> Sode;
typedef polympc::cost_collocation<Lag, May, Poly, K_S> Cost;
typedef polympc::constraint_collocation<K_X, K_U, K_NP, Poly, K_S> Cons;
// smooth everywhere; the first nv variables only
ex::Prog prog(vt::Rng& r, int nv, int len)
{
    ex::Prog p; auto add = [&](int op, int a, int b, double c) { p.n.push_back({op, a, b, (double)(F)c}); return (int)p.n.size() - 1; };
    for (int i = 0; i < nv; ++i) add(ex::VAR, i, 0, 0);
    if (r.chance(0.1)) { add(ex::CST, 0, 0, r.uniform(-2, 2)); return p; }
    for (int k = 0; k < len; ++k)
    {
        const int n = (int)p.n.size(), a = r.range(0, n - 1), b = r.range(0, n - 1);
        switch (r.range(0, 10))
        {
        case 0: add(ex::ADD, a, b, 0); break;
        case 1: add(ex::SUB, a, b, 0); break;
        case 2: add(ex::MULC, a, 0, r.uniform(-2, 2)); break;
        case 3: add(ex::ADDC, a, 0, r.uniform(-2, 2)); break;
        case 4: add(ex::NEG, a, 0, 0); break;
        case 5: add(ex::SIN, a, 0, 0); break;
        case 6: add(ex::COS, a, 0, 0); break;
        case 7: { const int s = add(ex::SIN, a, 0, 0); add(ex::EXP, s, 0, 0); break; }
        case 8: { const int s = add(ex::SIN, a, 0, 0), t = add(ex::ADDC, s, 0, 2.5); add(ex::DIV, b, t, 0); break; }
        case 9: { const int s = add(ex::COS, a, 0, 0), t = add(ex::ADDC, s, 0, 1.5); add(ex::SQRT, t, 0, 0); break; }
        default: { const int s = add(ex::SIN, a, 0, 0); add(ex::MUL, s, b, 0); break; }
        }
    }
    return p;
}
// an object built in memory of arbitrary content
template <class T> struct Mem
{
    void* raw; T* o;
    template <class... A> explicit Mem(int fill, const A&... a) { raw = std::malloc(sizeof(T) + 64); void* p = (void*)(((uintptr_t)raw + 63) & ~(uintptr_t)63); vt::dirty(p, fill, sizeof(T)); o = new (p) T(a...); }
    ~Mem() { o->~T(); std::free(raw); }
    Mem(const Mem&) = delete;
    T& operator*() { return *o; }
};
M dense(vt::Case& c, const Eigen::SparseMatrix<F>& a)
{
    M d = M::Zero(a.rows(), a.cols());
    for (int k = 0; k < a.outerSize(); ++k)
    {
        long last = -1;
        for (Eigen::SparseMatrix<F>::InnerIterator it(a, k); it; ++it) { if (!(it.row() > last && it.row() < a.rows())) c.fail("sparse/storage", "rows of a column not strictly increasing"); last = it.row(); d(it.row(), it.col()) = it.value(); }
    }
    return d;
}
void body(vt::Case& c)
{
    vt::Rng& r = c.rng; c.nontrivial();
    oc::Dims n; n.nx = K_X; n.nu = K_U; n.np = K_NP; n.nd = 0; n.ng = K_Y; n.P = K_P; n.S = K_S; n.lag = n.may = true;
    const int NV = n.var(), NE = n.ne(), NI = n.ni(), XU = n.vx() + n.vu();
    oc::Spec s; s.n = n;
    for (int i = 0; i < K_X; ++i) s.f.push_back(prog(r, K_X + K_U + K_NP, r.range(1, 5)));
    for (int i = 0; i < K_Y; ++i) s.g.push_back(prog(r, K_X + K_U + K_NP, r.range(1, 5)));
    s.lag = prog(r, K_X + K_U + K_NP, r.range(1, 6)); s.may = prog(r, K_X, r.range(1, 5));
    const std::vector<oc::Point> pts = oc::random_points(c, n, 3, SINGLE);
    g_spec = &s;
    c.cfg = "lagrange " + s.lag.str() + " mayer " + s.may.str(); for (auto& k : s.f) c.cfg += " f " + k.str();
    const int fill = r.pick(std::vector<int>{0, 0xff, 0x40});
    // functors passed to the constructor, or default ones
    Dyn dyn; Lag lag; May may; std::unique_ptr<Mem<Ode>> ode_; std::unique_ptr<Mem<Sode>> sode_; std::unique_ptr<Mem<Cost>> cost_;
    if (r.chance(0.5)) { c.event("default_functors"); ode_.reset(new Mem<Ode>(fill)); sode_.reset(new Mem<Sode>(fill)); cost_.reset(new Mem<Cost>(fill)); }
    else { oc::Spec none; g_spec = &none; c.event("given_functors"); ode_.reset(new Mem<Ode>(fill, dyn)); sode_.reset(new Mem<Sode>(fill, dyn)); cost_.reset(new Mem<Cost>(fill, lag, may)); g_spec = &s; }
    Mem<Cons> cons_(fill);
    Ode& ode = **ode_; Sode& sode = **sode_; Cost& cost = **cost_; Cons& cons = *cons_;
    std::unique_ptr<typename Ode::jacobian_t> J(new typename Ode::jacobian_t); std::unique_ptr<typename Cost::hessian_t> H(new typename Cost::hessian_t);
    typename Ode::var_t x; typename Ode::constr_t e; typename Cost::var_t g; typename Cons::template value_t<K_Y> y; F v;
    Eigen::SparseMatrix<F> A(NE, NV); bool first = true;
    const F junk = r.chance(0.5) ? (F)NAN : (F)7;
    oc::Point prev;
    for (int step = 0; step < 6; ++step)
    {
        oc::Point p = pts[r.range(0, 2)]; // now and then the same variables on another window, or other variables on the same window
        if (step > 0 && r.chance(0.4)) { if (r.chance(0.5)) p.var = prev.var; else { p.t0 = prev.t0; p.tf = prev.tf; } c.event("related"); } prev = p;
        for (int i = 0; i < NV; ++i) x(i) = (F)p.var[i]; c.mixin((double)x(0)); c.mixin(p.tf);
        const F t0 = (F)p.t0, tf = (F)p.tf; const auto keep = x;
        const int what = r.range(0, 7), order = what == 0 || what == 2 || what == 4 || what == 7 ? 0 : what == 6 ? 2 : 1;
        const oc::VL lam = oc::VL::Zero(NE + NI);
        const oc::Ref q = oc::reference(s, p, lam, 1, order);
        const double t = 3000 * U_ * q.mag * q.mag * (1 + K_P * K_P) * (SINGLE ? 2 : 1);
        e.setConstant(junk); g.setConstant(junk); y.setConstant(junk); J->setConstant(junk); H->setConstant(junk); v = junk;
        M rj, rg, rh;
        if (order) { rj = q.J.template cast<double>(); rj.rightCols(K_NP).setZero(); rg = q.grad.template cast<double>(); rg.bottomRows(K_NP).setZero(); } // parameters are constants
        if (order == 2) { rh = q.H.template cast<double>(); rh.rightCols(K_NP).setZero(); rh.bottomRows(K_NP).setZero(); }
        const M qc = q.c.template cast<double>();
        c.event(vt::fmt("call%d", what));
        bool ok = true;
        switch (what)
        {
        case 0: ode(x, e, t0, tf); ok = c.nearm(e, qc.topRows(NE), t, "ode/value"); break;
        case 1: ode.linearized(x, *J, e, t0, tf); ok = c.nearm(e, qc.topRows(NE), t, "ode/linearized-value") && c.nearm(*J, rj.topRows(NE), t, "ode/linearized-jacobian"); break;
        case 2: sode(x, e, t0, tf); ok = c.nearm(e, qc.topRows(NE), t, "sparse-ode/value"); break;
        case 3:
            if (r.chance(0.2)) { A = Eigen::SparseMatrix<F>(NE, NV); first = true; }
            c.event(first ? "first_fill" : "filled_before");
            sode.linearized(x, A, e, t0, tf); ok = c.nearm(e, qc.topRows(NE), t, "sparse-ode/linearized-value") && c.nearm(dense(c, A), rj.topRows(NE), t, first ? "sparse-ode/linearized-jacobian/first" : "sparse-ode/linearized-jacobian/again"); first = false; break;
        case 4: cost(x, v, t0, tf); ok = c.near(v, (double)q.cost, t, "cost/value"); break;
        case 5: cost.value_gradient(x, v, g, t0, tf); ok = c.near(v, (double)q.cost, t, "cost/value_gradient/value") && c.nearm(g, rg, t, "cost/value_gradient/gradient"); break;
        case 6: cost.value_gradient_hessian(x, v, g, *H, t0, tf); ok = c.near(v, (double)q.cost, t, "cost/value_gradient_hessian/value") && c.nearm(g, rg, t, "cost/value_gradient_hessian/gradient") && c.nearm(*H, rh, t, "cost/value_gradient_hessian/hessian"); break;
        case 7:
        {
            const Con f; Con f2;
            if (r.chance(0.5)) cons.template generic_function<Con, K_Y>(f, x, y); else y = cons.template generic_function<Con, K_Y>(f2, x);
            ok = c.nearm(y, qc.bottomRows(NI), t, "constraints/value"); break;
        }
        }
        if (!c.check(keep == x, "argument-modified")) return;
        if (!ok) return;
        (void)XU;
    }
}
#define STR2(a) #a
#define STR(a) STR2(a)
vt::Reg reg("colloc_" STR(K_X) STR(K_U) STR(K_NP) STR(K_Y) "_" STR(K_P) STR(K_S) "_" STR(K_F), &body, 1200, 60000);
}
