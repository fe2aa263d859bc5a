// The controller under test: MPC wrapper around an SQP solver for TestOcp; -DM_QP=boxADMM|ADMM
#include "ocp.hpp"
#include "mpc_ref.hpp"
#include "solvers/sqp_base.hpp"
#include "solvers/box_admm.hpp"
#include "solvers/admm.hpp"
#include "control/mpc_wrapper.hpp"
#ifndef M_QP
#define M_QP boxADMM
#endif
struct Trace { long iters = 0; double alpha = 1; bool qp_solved = true; double pnorm = 0, ynorm = 0, dy = 0, hnorm = 0, gnorm = 0; bool runaway = false; };
template <typename Problem, typename QP> class MpcSolver;
template <typename Problem, typename QP>
class MpcSolver : public SQPBase<MpcSolver<Problem, QP>, Problem, QP>
{
public:
    using Base = SQPBase<MpcSolver<Problem, QP>, Problem, QP>;
    using typename Base::scalar_t; using typename Base::nlp_variable_t; using typename Base::nlp_hessian_t;
    Trace tr;
    scalar_t step_size_selection_impl(const Eigen::Ref<const nlp_variable_t>& p) noexcept
    {
        const scalar_t a = Base::step_size_selection_impl(p);
        ++tr.iters; tr.alpha = a; tr.qp_solved = this->m_qp_solver.info().status == SOLVED; tr.pnorm = p.template lpNorm<Eigen::Infinity>(); tr.ynorm = this->m_lam_k.template lpNorm<Eigen::Infinity>();
        tr.dy = (this->m_lam_k - this->m_lam).template lpNorm<Eigen::Infinity>(); tr.hnorm = this->m_H.norm(); tr.gnorm = this->m_h.template lpNorm<Eigen::Infinity>();
        if (!(tr.pnorm < 1e4 && tr.ynorm < 1e6 && this->m_x.template lpNorm<Eigen::Infinity>() < 1e4)) { tr.runaway = true; this->m_settings.max_iter = 0; }
        return a;
    }
#if O_SP
    EIGEN_STRONG_INLINE void hessian_update_impl(Eigen::Ref<nlp_hessian_t> hessian, const Eigen::Ref<const nlp_variable_t>& s, const Eigen::Ref<const nlp_variable_t>& y) noexcept { this->problem.hessian_update_impl(hessian, s, y); }
#endif
};
typedef M_QP<TestOcp::VAR_SIZE, TestOcp::NUM_EQ + TestOcp::NUM_INEQ, F, TestOcp::MATRIXFMT, linear_solver_traits<TestOcp::MATRIXFMT>::default_solver> MpcQp;
typedef MPC<TestOcp, MpcSolver, MpcQp> Mpc;
namespace {
struct MpcMem // controller built over memory of a chosen content
{
    void* m; Mpc* c;
    explicit MpcMem(int fill) { m = aligned_alloc(64, (sizeof(Mpc) + 63) / 64 * 64); vt::dirty(m, fill, sizeof(Mpc)); c = new (m) Mpc; }
    ~MpcMem() { c->~Mpc(); free(m); }
};
}
