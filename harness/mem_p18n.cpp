// Fixed-size dense NLP, QP and helper updates: no heap traffic once constructed.
#include "vt.hpp"
static bool g_armed = false; static long g_allocs = 0; static size_t g_bytes = 0; static bool g_trap = false;
#include "solvers/nlproblem.hpp"
#include "solvers/sqp_base.hpp"
#include "solvers/box_admm.hpp"
#include "solvers/admm.hpp"
#include "solvers/bfgs.hpp"
#include "solvers/sr1.hpp"
#include "solvers/qp_preconditioners.hpp"
#include "polynomials/splines.hpp"
#include "polynomials/ebyshev.hpp"
#include <sanitizer/common_interface_defs.h>
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*));
#ifndef H_F
#define H_F double
#define H_QP boxADMM
#define H_PRE polympc::IdentityPreconditioner
#define H_ID 0
#endif
typedef H_F F;
POLYMPC_FORWARD_NLP_DECLARATION(HeapNlp, 5, 2, 2, 1, F)
class HeapNlp : public ProblemBase<HeapNlp>
{
public:
    template <typename T> EIGEN_STRONG_INLINE void cost_impl(const Eigen::Ref<const variable_t<T>>& x, const Eigen::Ref<const static_parameter_t>& p, T& cost) const noexcept
    { cost = x.squaredNorm() + (x(0) - p(0)) * (x(0) - p(0)) + F(0.1) * x(1) * x(2) + F(0.05) * exp(x(3)); }
    template <typename T> EIGEN_STRONG_INLINE void equality_constraints_impl(const Eigen::Ref<const variable_t<T>>& x, const Eigen::Ref<const static_parameter_t>&, Eigen::Ref<eq_constraint_t<T>> c) const noexcept
    { c(0) = x(0) + x(1) - F(0.5); c(1) = x(2) + F(0.1) * sin(x(3)) - F(0.1); }
    template <typename T> EIGEN_STRONG_INLINE void inequality_constraints_impl(const Eigen::Ref<const variable_t<T>>& x, const Eigen::Ref<const static_parameter_t>&, Eigen::Ref<ineq_constraint_t<T>> g) const noexcept
    { g(0) = x(4) + x(0); g(1) = x(3) - x(4); }
};
typedef H_QP<5, 4, F> Qp;
class HeapSolver : public SQPBase<HeapSolver, HeapNlp, Qp, H_PRE> {};
namespace {
void on_malloc(const volatile void*, size_t n) { if (g_armed) { ++g_allocs; g_bytes += n; if (g_trap) { g_armed = false; __sanitizer_print_stack_trace(); g_armed = true; } } }
void on_free(const volatile void*) {}
struct Install { Install() { if (!__sanitizer_install_malloc_and_free_hooks(&on_malloc, &on_free)) abort(); g_trap = getenv("P18_TRACE"); } } install;
bool counts() { g_allocs = 0; g_armed = true; void* volatile p = malloc(64); g_armed = false; free(p); return g_allocs == 1; }
struct Watch
{
    vt::Case& c; const char* what;
    Watch(vt::Case& c_, const char* w) : c(c_), what(w) { g_allocs = 0; g_bytes = 0; g_armed = true; }
    ~Watch() { g_armed = false; c.event(what); c.check(g_allocs == 0, std::string("heap/") + what, vt::fmt("%ld allocations, %zu bytes", g_allocs, g_bytes)); }
};
template <class S> void sqp(vt::Case& c, vt::Rng& r)
{
    S s; if (sizeof(F) == 4) s.qp_settings().sigma = (F)1e-3;
    s.settings().max_iter = r.range(1, 10); s.qp_settings().max_iter = r.pick(std::vector<int>{50, 500});
    for (int k = 0; k < 3; ++k)
    {
        typename S::nlp_variable_t x0; typename S::nlp_dual_t y0; for (int i = 0; i < 5; ++i) x0(i) = (F)r.uniform(-1, 1); y0.setZero();
        s.lower_bound_x().setConstant((F)-2); s.upper_bound_x().setConstant((F)2); s.lower_bound_g().setConstant((F)-1); s.upper_bound_g().setConstant((F)r.uniform(0.5, 2)); s.parameters()(0) = (F)r.uniform(-1, 1);
        { Watch w(c, "nlp-solve"); s.solve(x0, y0); }
        c.event("iterations", s.info().iter); c.mixin((double)s.primal_solution()(0));
    }
}
template <class Q> void qp(vt::Case& c, vt::Rng& r)
{
    Q q; q.settings().adaptive_rho = r.chance(0.5); q.settings().max_iter = 200; if (sizeof(F) == 4) q.settings().sigma = (F)1e-3;
    typename Q::qp_hessian_t H; typename Q::qp_constraint_t A; typename Q::qp_var_t h, xl, xu, x; typename Q::qp_dual_a_t al, au; typename Q::qp_dual_t y;
    for (int k = 0; k < 3; ++k)
    {
        for (int j = 0; j < 5; ++j) { h(j) = (F)r.normal(); xl(j) = (F)r.uniform(-2, 0); xu(j) = (F)r.uniform(0, 2); for (int i = 0; i < 5; ++i) H(i, j) = i == j ? (F)r.uniform(0.5, 3) : 0; for (int i = 0; i < 4; ++i) A(i, j) = (F)r.normal(); }
        for (int i = 0; i < 4; ++i) { al(i) = (F)-1; au(i) = i ? (F)1 : (F)-1; }
        x.setZero(); y.setZero();
        { Watch w(c, "qp-solve"); q.solve(H, h, A, al, au, xl, xu); }
        { Watch w(c, "qp-solve-from-guess"); q.solve(H, h, A, al, au, xl, xu, x, y); }
        polympc::RuizEquilibration<F, 5, 4> pre;
        { Watch w(c, "preconditioner"); pre.compute(H, h, A, al, au, xl, xu); pre.unscale(x, y); pre.unscale(H, h, A, al, au, xl, xu); }
        c.mixin((double)q.primal_solution()(0));
    }
}
void body(vt::Case& c)
{
    vt::Rng& r = c.rng; c.nontrivial();
    if (!c.check(counts(), "self-test")) return;
    c.event("self_test");
    sqp<HeapSolver>(c, r); qp<ADMM<5, 4, F>>(c, r); qp<boxADMM<5, 4, F>>(c, r);
    {
        typename HeapSolver::nlp_hessian_t H = HeapSolver::nlp_hessian_t::Identity(); typename HeapSolver::nlp_variable_t s, y; for (int i = 0; i < 5; ++i) { s(i) = (F)r.normal(); y(i) = (F)r.normal(); }
        { Watch w(c, "bfgs"); BFGS_update(H, s, y); }
        { Watch w(c, "sr1"); SR1_update(H, s, y); }
        c.mixin((double)H.sum());
    }
    {
        typedef polympc::Chebyshev<5, polympc::GAUSS_LOBATTO, F> P; F acc = 0;
        const typename P::nodes_t nd = P::compute_nodes(); Eigen::Matrix<F, 6, 6> B; Eigen::Matrix<F, 2, 6> v; for (int i = 0; i < 12; ++i) v(i) = (F)r.normal();
        { Watch w(c, "interpolation-basis"); polympc::LagrangeSpline::compute_lagrange_basis(nd, B); }
        { Watch w(c, "interpolation"); acc += polympc::LagrangeSpline::eval((F)0.3, v, B).sum(); }
        { Watch w(c, "scheme"); acc += P::compute_diff_matrix().sum() + P::compute_int_weights().sum() + P::compute_nodes().sum(); }
        c.mixin((double)acc);
    }
}
#define S2(x) #x
#define S1(x) S2(x)
vt::Reg reg("noheap_nlp_" S1(H_QP) "_" S1(H_F) "_" S1(H_ID), &body, 100, 5000);
}
