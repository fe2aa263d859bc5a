// Values and derivatives of a user-defined NLP against independent jet arithmetic.
#include <Eigen/Dense>
#include "solvers/nlproblem.hpp"
#include "expr.hpp"
#include <new>
#ifndef N_X
#define N_X 3
#define N_E 2
#define N_I 2
#define N_P 1
#define N_F double
#define N_NOCOST 0
#endif
typedef N_F F;
struct Spec { ex::Prog cost; std::vector<ex::Prog> eq, in; };
POLYMPC_FORWARD_NLP_DECLARATION(NlpUnderTest, N_X, N_E, N_I, N_P, F)
class NlpUnderTest : public ProblemBase<NlpUnderTest>
{
public:
    const Spec* s = nullptr;
    template <class T> static constexpr bool second() { return std::is_same<T, ad2_scalar_t>::value; }
#if !N_NOCOST
    template <typename T>
    EIGEN_STRONG_INLINE void cost_impl(const Eigen::Ref<const variable_t<T>>& x, const Eigen::Ref<const static_parameter_t>& p, T& cost) const noexcept
    {
        if (s->cost.constant) cost = ex::run<F, F, true>(s->cost, Eigen::Matrix<F, N_X, 1>::Zero().eval(), p);
        else cost = ex::run<T, F, true>(s->cost, x, p);
    }
#endif
#if N_E
    template <typename T>
    EIGEN_STRONG_INLINE void equality_constraints_impl(const Eigen::Ref<const variable_t<T>>& x, const Eigen::Ref<const static_parameter_t>& p, Eigen::Ref<eq_constraint_t<T>> c) const noexcept
    { all<T>(s->eq, x, p, c); }
#endif
#if N_I
    template <typename T>
    EIGEN_STRONG_INLINE void inequality_constraints_impl(const Eigen::Ref<const variable_t<T>>& x, const Eigen::Ref<const static_parameter_t>& p, Eigen::Ref<ineq_constraint_t<T>> g) const noexcept
    { all<T>(s->in, x, p, g); }
#endif
    template <class T, class X, class Q, class C> static void all(const std::vector<ex::Prog>& v, const X& x, const Q& p, C& c)
    {
        for (size_t i = 0; i < v.size(); ++i)
            if (v[i].constant) c(i) = ex::run<F, F, true>(v[i], Eigen::Matrix<F, N_X, 1>::Zero().eval(), p); // a plain number assigned to an output
            else c(i) = ex::run<T, F, true>(v[i], x, p);
    }
};
namespace {
const double U = sizeof(F) == 4 ? 1.2e-7 : 2.3e-16;
typedef Eigen::MatrixXd M; typedef Eigen::VectorXd V;
struct Ref { double cost; V g; M H; V c; M J; std::vector<M> cH; double tol; };
void fill(const ex::Jet& j, double& v, V& g, M& H)
{
    v = (double)j.v; g.resize(N_X); H.resize(N_X, N_X);
    for (int i = 0; i < N_X; ++i) { g(i) = (double)j.g[i]; for (int k = 0; k < N_X; ++k) H(i, k) = (double)j.h[i * N_X + k]; }
}
Ref reference(const Spec& s, const std::vector<double>& x, const std::vector<double>& p)
{
    Ref r; ex::ld mag = 1;
    r.c.resize(N_E + N_I); r.J.resize(N_E + N_I, N_X); r.cH.resize(N_E + N_I);
#if N_NOCOST
    r.cost = 0; r.g = V::Zero(N_X); r.H = M::Zero(N_X, N_X);
#else
    fill(ex::jet(s.cost, x, p, &mag), r.cost, r.g, r.H);
#endif
    for (int i = 0; i < N_E + N_I; ++i) { double v; V g; fill(ex::jet(i < N_E ? s.eq[i] : s.in[i - N_E], x, p, &mag), v, g, r.cH[i]); r.c(i) = v; r.J.row(i) = g; }
    r.tol = 5000 * U * (double)(mag * mag);
    return r;
}
void body(vt::Case& c)
{
    vt::Rng& r = c.rng;
    const int NPTS = 3;
    std::vector<std::vector<double>> xs(NPTS), ps(NPTS);
    for (auto& x : xs) for (int i = 0; i < N_X; ++i) x.push_back((double)(F)r.uniform(-2, 2));
    for (auto& x : ps) for (int i = 0; i < N_P; ++i) x.push_back((double)(F)r.uniform(-2, 2));
    for (int k = 1; k < NPTS; ++k)
    {   // later points often differ from the first one in a single place only
        const int like = r.range(0, 5);
        if (like == 0) { xs[k] = xs[0]; c.event("points_share_variables"); }
        else if (like == 1) { ps[k] = ps[0]; c.event("points_share_parameters"); }
        else if (like <= 3) { xs[k] = xs[0]; ps[k] = ps[0]; xs[k][r.range(0, N_X - 1)] = (double)(F)r.uniform(-2, 2); c.event("points_differ_in_one_variable"); }
    }
    Spec s;
    auto prog = [&]() { ex::Prog p = ex::random_prog(r, N_X, N_P, r.range(1, 9), xs, ps); for (auto& n : p.n) n.c = (double)(F)n.c; for (auto& n : p.n) c.mixin((uint64_t)(n.op * 1000 + n.a * 31 + n.b)); if (p.constant) c.event("constant_function"); return p; };
    s.cost = prog();
    for (int i = 0; i < N_E; ++i) s.eq.push_back(prog());
    for (int i = 0; i < N_I; ++i) s.in.push_back(prog());
    c.cfg = "cost: " + s.cost.str(); c.nontrivial();
    alignas(64) static unsigned char buf[sizeof(NlpUnderTest) + 64];
    vt::dirty(buf, r.pick(std::vector<int>{0, 0xff, 0x40}), sizeof buf); // 0x40: a finite garbage number
    NlpUnderTest* pb = new (buf) NlpUnderTest; pb->s = &s;
    const F junk = r.chance(0.5) ? (F)NAN : (F)7;
    Eigen::Matrix<F, N_X, 1> x, g, lg; Eigen::Matrix<F, N_P, 1> p; Eigen::Matrix<F, N_X, N_X> H; Eigen::Matrix<F, N_E, 1> e; Eigen::Matrix<F, N_I, 1> in; Eigen::Matrix<F, N_E + N_I, 1> con;
    Eigen::Matrix<F, N_E, N_X> Je; Eigen::Matrix<F, N_I, N_X> Ji; Eigen::Matrix<F, N_E + N_I, N_X> J; Eigen::Matrix<F, N_E + N_I + N_X, 1> lam;
    std::string trace;
    for (int step = 0; step < 14; ++step)
    {
        const int k = r.range(0, NPTS - 1);
        for (int i = 0; i < N_X; ++i) x(i) = (F)xs[k][i];
        for (int i = 0; i < N_P; ++i) p(i) = (F)ps[k][i];
        for (int i = 0; i < N_E + N_I + N_X; ++i) lam(i) = (F)(r.chance(0.2) ? 0 : r.uniform(-2, 2));
        const Ref q = reference(s, xs[k], ps[k]);
        const double t = q.tol;
        F v = junk; g.setConstant(junk); lg.setConstant(junk); H.setConstant(junk); e.setConstant(junk); in.setConstant(junk); con.setConstant(junk); Je.setConstant(junk); Ji.setConstant(junk); J.setConstant(junk);
        const V L = lam.template cast<double>();
        V rlg = q.g + L.tail(N_X); M rH; if (N_E + N_I) rlg += q.J.transpose() * L.head(N_E + N_I);
        const int what = r.range(0, 12);
        trace += vt::fmt(" %d", what);
        c.event(vt::fmt("call%02d", what));
        bool ok = true;
        switch (what)
        {
#if !N_NOCOST
        case 0: pb->cost(x, p, v); ok = c.near(v, q.cost, t, "cost/value"); break;
        case 9: pb->lagrangian(x, p, lam, v);
            ok = c.near(v, q.cost + L.head(N_E + N_I).dot(q.c) + L.tail(N_X).dot(x.template cast<double>()), 10 * t, "lagrangian/value"); break;
#endif
        case 1: pb->cost_gradient(x, p, v, g); ok = c.near(v, q.cost, t, "cost_gradient/value") && c.nearm(g, q.g, t, "cost_gradient/gradient"); break;
        case 2: pb->cost_gradient_hessian(x, p, v, g, H); ok = c.near(v, q.cost, t, "cost_gradient_hessian/value") && c.nearm(g, q.g, t, "cost_gradient_hessian/gradient") && c.nearm(H, q.H, t, "cost_gradient_hessian/hessian"); break;
        case 3: if (N_E) { pb->equalities(x, p, e); ok = c.nearm(e, q.c.head(N_E), t, "equalities"); } break;
        case 4: if (N_I) { pb->inequalities(x, p, in); ok = c.nearm(in, q.c.tail(N_I), t, "inequalities"); } break;
        case 5: pb->constraints(x, p, con); ok = c.nearm(con, q.c, t, "constraints"); break;
        case 6: pb->equalities_linearised(x, p, e, Je); ok = c.nearm(e, q.c.head(N_E), t, "equalities_linearised/value") && c.nearm(Je, q.J.topRows(N_E), t, "equalities_linearised/jacobian"); break;
        case 7: pb->inequalities_linearised(x, p, in, Ji); ok = c.nearm(in, q.c.tail(N_I), t, "inequalities_linearised/value") && c.nearm(Ji, q.J.bottomRows(N_I), t, "inequalities_linearised/jacobian"); break;
        case 8: pb->constraints_linearised(x, p, con, J); ok = c.nearm(con, q.c, t, "constraints_linearised/value") && c.nearm(J, q.J, t, "constraints_linearised/jacobian"); break;
        case 10: pb->lagrangian_gradient(x, p, lam, v, lg); ok = c.nearm(lg, rlg, 10 * t, "lagrangian_gradient/gradient"); break;
        case 11: pb->lagrangian_gradient(x, p, lam, v, lg, g, con, J);
            ok = c.near(v, q.cost, t, "lagrangian_gradient/cost") && c.nearm(lg, rlg, 10 * t, "lagrangian_gradient/lag-gradient") && c.nearm(g, q.g, t, "lagrangian_gradient/cost-gradient") && c.nearm(con, q.c, t, "lagrangian_gradient/constraints") && c.nearm(J, q.J, t, "lagrangian_gradient/jacobian"); break;
        case 12: {
            const F cs = r.chance(0.5) ? (F)1 : r.chance(0.2) ? r.pick(std::vector<F>{(F)0, (F)-1, (F)-0.5}) : (F)r.uniform(0.2, 3);
            if (cs == 1 && r.chance(0.5)) pb->lagrangian_gradient_hessian(x, p, lam, v, lg, H, g, con, J);
            else pb->lagrangian_gradient_hessian(x, p, lam, v, lg, H, g, con, J, cs);
            rH = (double)cs * q.H; for (int i = 0; i < N_E + N_I; ++i) rH += L(i) * q.cH[i];
            ok = c.near(v, q.cost, t, "lagrangian_gradient_hessian/cost") && c.nearm(lg, rlg, 10 * t, "lagrangian_gradient_hessian/lag-gradient") && c.nearm(g, q.g, t, "lagrangian_gradient_hessian/cost-gradient") && c.nearm(con, q.c, t, "lagrangian_gradient_hessian/constraints")
                 && c.nearm(J, q.J, t, "lagrangian_gradient_hessian/jacobian") && c.nearm(H, rH, 20 * t, "lagrangian_gradient_hessian/hessian");
            break; }
        default: break;
        }
        if (!ok) { c.fail("trace", "calls:" + trace); return; }
    }
    pb->~NlpUnderTest();
}
#define STR2(x) #x
#define STR1(x) STR2(x)
vt::Reg reg("nlp_" STR1(N_X) "_" STR1(N_E) "_" STR1(N_I) "_" STR1(N_P) "_" STR1(N_F) "_" STR1(N_NOCOST), body, 1500, 200000);
}
