// -DT_F -DT_QP -DT_PRE -DT_NAME
#include "thr.hpp"
#include "solvers/nlproblem.hpp"
#include "solvers/sqp_base.hpp"
#include "solvers/box_admm.hpp"
#include "solvers/admm.hpp"
#include "solvers/qp_preconditioners.hpp"
#include "solvers/sr1.hpp"
#include "solvers/line_search.hpp"
#ifndef T_F
#define T_F double
#define T_QP boxADMM
#define T_PRE polympc::IdentityPreconditioner
#define T_NAME ThrNlp
#endif
typedef T_F F;
POLYMPC_FORWARD_NLP_DECLARATION(T_NAME, 4, 1, 2, 3, F)
class T_NAME : public ProblemBase<T_NAME>
{
public:
    template <typename T> EIGEN_STRONG_INLINE void cost_impl(const Eigen::Ref<const variable_t<T>>& x, const Eigen::Ref<const static_parameter_t>& p, T& cost) const noexcept
    { cost = x.squaredNorm() * (F(1) + p(0) * p(0)) + (x(0) - p(1)) * (x(3) - p(2)) + F(0.1) * exp(x(1)) + F(0.3) * sin(p(1) * x(2)); }
    template <typename T> EIGEN_STRONG_INLINE void equality_constraints_impl(const Eigen::Ref<const variable_t<T>>& x, const Eigen::Ref<const static_parameter_t>& p, Eigen::Ref<eq_constraint_t<T>> c) const noexcept
    { c(0) = x(0) + x(1) + F(0.2) * x(2) * x(2) - p(2); }
    template <typename T> EIGEN_STRONG_INLINE void inequality_constraints_impl(const Eigen::Ref<const variable_t<T>>& x, const Eigen::Ref<const static_parameter_t>& p, Eigen::Ref<ineq_constraint_t<T>> g) const noexcept
    { g(0) = x(1) + p(0) * x(3); g(1) = cos(x(0)) - x(2); }
};
namespace {
class Solver : public SQPBase<Solver, T_NAME, T_QP<4, 3, F>, T_PRE>
{
public:
    using Base = SQPBase<Solver, T_NAME, T_QP<4, 3, F>, T_PRE>; using typename Base::scalar_t; using typename Base::nlp_variable_t; using typename Base::nlp_hessian_t;
    bool away = false;
    scalar_t step_size_selection_impl(const Eigen::Ref<const nlp_variable_t>& p) noexcept
    {
        const scalar_t a = Base::step_size_selection_impl(p); // diverging runs are stopped before they overflow
        if (!(p.template lpNorm<Eigen::Infinity>() < 10 && this->m_lam_k.template lpNorm<Eigen::Infinity>() < 100)) { away = true; this->m_settings.max_iter = 0; }
        return a;
    }
    EIGEN_STRONG_INLINE void hessian_update_impl(Eigen::Ref<nlp_hessian_t> H, const Eigen::Ref<const nlp_variable_t>& s, const Eigen::Ref<const nlp_variable_t>& y) noexcept
    { if (away || !(H.norm() < 1e3)) H.setIdentity(); else Base::hessian_update_impl(H, s, y); if (!(H.norm() < 1e3)) H.setIdentity(); }
};
#define S2(x) #x
#define S1(x) S2(x)
struct N : thr::Stepper
{
    double par[thr::STEPS][3], x0[thr::STEPS][4], ub[thr::STEPS]; int imax[thr::STEPS]; bool last = true; std::unique_ptr<Solver> s; std::unique_ptr<T_NAME> pr; LSFilter<F> f; Eigen::Matrix<F, 4, 4> B;
    explicit N(vt::Rng& r) { for (int k = 0; k < thr::STEPS; ++k) { for (auto& v : par[k]) v = r.uniform(-1, 1); for (auto& v : x0[k]) v = r.uniform(-1, 1); ub[k] = r.uniform(0.3, 2); imax[k] = r.range(1, 12); } }
    void begin() override { s.reset(new Solver); pr.reset(new T_NAME); if (sizeof(F) == 4) s->qp_settings().sigma = (F)1e-3; s->qp_settings().max_iter = 300; B.setIdentity(); f = LSFilter<F>(); }
    void step(int k) override
    {
        Solver::nlp_variable_t x; Solver::nlp_dual_t y; y.setZero(); for (int i = 0; i < 4; ++i) x(i) = (F)x0[k][i];
        for (int i = 0; i < 3; ++i) s->parameters()(i) = (F)par[k][i];
        s->lower_bound_x().setConstant((F)-2); s->upper_bound_x().setConstant((F)ub[k]); s->lower_bound_g().setConstant((F)-1); s->upper_bound_g().setConstant((F)(2 * ub[k])); s->settings().max_iter = imax[k];
        s->away = false;
        if (k % 2 && last) s->solve(); else s->solve(x, y); last = !s->away;
        put(s->primal_solution()); put(s->dual_solution()); put(s->info().iter); put(s->info().qp_solver_iter); put(s->info().status.value); put(s->m_cost); put(s->constr_violation()); put(s->primal_norm()); put(s->dual_norm());
        // the problem class on its own
        T_NAME::static_parameter_t p; for (int i = 0; i < 3; ++i) p(i) = (F)par[k][i];
        F l; T_NAME::nlp_variable_t g; T_NAME::nlp_hessian_t h; T_NAME::nlp_constraints_t c; T_NAME::nlp_jacobian_t j; T_NAME::nlp_dual_t lam; for (int i = 0; i < 7; ++i) lam(i) = (F)x0[k][i % 4];
        pr->lagrangian_gradient_hessian(x, p, lam, l, g, h, g, c, j, (F)1); put(l); put(g); put(h); put(c); put(j);
        Eigen::Matrix<F, 4, 1> sx, yx; for (int i = 0; i < 4; ++i) { sx(i) = (F)x0[k][i]; yx(i) = g(i); }
        Eigen::Matrix<F, 4, 4> B2 = B; BFGS_update(B, sx, yx); SR1_update(B2, sx, yx); put(B); put(B2); if (!B.allFinite()) B.setIdentity();
        put(f.is_acceptable(l, std::abs(c(0)))); f.add(l, std::abs(c(0)));
    }
};
thr::Add a("nlp_" S1(T_NAME), thr::mk<N>);
}
