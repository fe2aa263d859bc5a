// IpoptInterface over a user-defined NLP. -D N_X N_E N_I N_P
#include <Eigen/Dense>
#include "solvers/nlproblem.hpp"
#include "expr.hpp"
#include "ipopt_p23.hpp"
#include "solvers/ipopt_interface.hpp"
typedef double F;
namespace { struct Spec { ex::Prog cost; std::vector<ex::Prog> eq, in; }; const Spec* g_spec; }
POLYMPC_FORWARD_NLP_DECLARATION(IpNlp, N_X, N_E, N_I, N_P, double)
class IpNlp : public ProblemBase<IpNlp>
{
public:
    double extra = 0; // set through get_problem()
    template <typename T>
    EIGEN_STRONG_INLINE void cost_impl(const Eigen::Ref<const variable_t<T>>& x, const Eigen::Ref<const static_parameter_t>& p, T& cost) const noexcept { cost = ex::run<T, F, true>(g_spec->cost, x, p); cost += T(extra) * x(0); }
#if N_E
    template <typename T>
    EIGEN_STRONG_INLINE void equality_constraints_impl(const Eigen::Ref<const variable_t<T>>& x, const Eigen::Ref<const static_parameter_t>& p, Eigen::Ref<eq_constraint_t<T>> c) const noexcept { for (int i = 0; i < N_E; ++i) c(i) = ex::run<T, F, true>(g_spec->eq[i], x, p); }
#endif
#if N_I
    template <typename T>
    EIGEN_STRONG_INLINE void inequality_constraints_impl(const Eigen::Ref<const variable_t<T>>& x, const Eigen::Ref<const static_parameter_t>& p, Eigen::Ref<ineq_constraint_t<T>> g) const noexcept { for (int i = 0; i < N_I; ++i) g(i) = ex::run<T, F, true>(g_spec->in[i], x, p); }
#endif
};
namespace {
void body(vt::Case& c)
{
    vt::Rng& r = c.rng;
    std::vector<std::vector<double>> xs(3), ps(1);
    for (auto& x : xs) for (int i = 0; i < N_X; ++i) x.push_back(r.uniform(-2, 2));
    for (int i = 0; i < N_P; ++i) ps[0].push_back(r.uniform(-2, 2));
    while (ps.size() < 3) ps.push_back(ps[0]);
    Spec s; auto prog = [&]() { for (;;) { ex::Prog p = ex::random_prog(r, N_X, N_P, r.range(2, 9), xs, ps); if (!p.constant) { for (auto& n : p.n) c.mixin((uint64_t)(n.op * 1000 + n.a * 31 + n.b)); return p; } } };
    s.cost = prog(); for (int i = 0; i < N_E; ++i) s.eq.push_back(prog()); for (int i = 0; i < N_I; ++i) s.in.push_back(prog());
    g_spec = &s; c.cfg = "cost: " + s.cost.str(); c.nontrivial();
    IpoptInterface<IpNlp> solver; double extra = 0;
    auto truth = [&](int w, const ipt::V& lam, double of, int) {
        ipt::Truth q; ex::ld mag = 1; q.c.resize(N_E + N_I); q.J.resize(N_E + N_I, N_X); q.grad.resize(N_X);
        ex::Jet j = ex::jet(s.cost, xs[w], ps[0], &mag); q.cost = (double)(j.v + (ex::ld)extra * xs[w][0]); q.W.resize(N_X, N_X);
        for (int i = 0; i < N_X; ++i) { q.grad(i) = (double)j.g[i]; for (int k = 0; k < N_X; ++k) q.W(i, k) = of * (double)j.h[i * N_X + k]; }
        q.grad(0) += extra;
        for (int k = 0; k < N_E + N_I; ++k)
        {
            ex::Jet g = ex::jet(k < N_E ? s.eq[k] : s.in[k - N_E], xs[w], ps[0], &mag); q.c(k) = (double)g.v;
            for (int i = 0; i < N_X; ++i) { q.J(k, i) = (double)g.g[i]; for (int l = 0; l < N_X; ++l) q.W(i, l) += lam(k) * (double)g.h[i * N_X + l]; }
        }
        q.tol = 5000 * 2.3e-16 * (double)(mag * mag); q.ltol = 20 * q.tol; return q;
    };
    ipt::run(c, solver, N_X, N_E, N_I, truth, [&](int w) { return ipt::V(Eigen::Map<ipt::V>(xs[w].data(), N_X)); },
             [&](vt::Rng& q) { for (int i = 0; i < N_P; ++i) solver.parameters()(i) = ps[0][i]; if (q.chance(0.5)) { extra = q.uniform(-1, 1); solver.get_problem().extra = extra; } });
}
#define STR2(x) #x
#define STR1(x) STR2(x)
vt::Reg reg("ipopt_nlp_" STR1(N_X) STR1(N_E) STR1(N_I) STR1(N_P), body, 400, 20000);
}
