// The problem class and the monitored SQP solver; -DNLP_NAME -DN_X -DN_E -DN_I -DN_P -DN_F -DN_QP -DN_PRE
#include "sqp_prob.hpp"
#include "solvers/nlproblem.hpp"
#include "solvers/sqp_base.hpp"
#include <new>
#ifndef NLP_NAME
#define NLP_NAME NlpDefault
#define N_X 3
#define N_E 1
#define N_I 2
#define N_P 1
#define N_F double
#define N_QP boxADMM
#define N_PRE polympc::IdentityPreconditioner
#endif
using sq::L; using sq::ML; using sq::VL;
typedef N_F F;
POLYMPC_FORWARD_NLP_DECLARATION(NLP_NAME, N_X, N_E, N_I, N_P, F)
class NLP_NAME : public ProblemBase<NLP_NAME>
{
public:
    const sq::Data* d = nullptr;
    template <typename T>
    EIGEN_STRONG_INLINE void cost_impl(const Eigen::Ref<const variable_t<T>>& x, const Eigen::Ref<const static_parameter_t>& p, T& cost) const noexcept { cost = d->f.run<T, F>(x, p); }
#if N_E
    template <typename T>
    EIGEN_STRONG_INLINE void equality_constraints_impl(const Eigen::Ref<const variable_t<T>>& x, const Eigen::Ref<const static_parameter_t>& p, Eigen::Ref<eq_constraint_t<T>> c) const noexcept
    { for (int i = 0; i < N_E; ++i) c(i) = d->e[i].run<T, F>(x, p); }
#endif
#if N_I
    template <typename T>
    EIGEN_STRONG_INLINE void inequality_constraints_impl(const Eigen::Ref<const variable_t<T>>& x, const Eigen::Ref<const static_parameter_t>& p, Eigen::Ref<ineq_constraint_t<T>> g) const noexcept
    { for (int i = 0; i < N_I; ++i) g(i) = d->g[i].run<T, F>(x, p); }
#endif
};
#define M_C (N_E + N_I)
typedef N_QP<N_X, M_C, F> QpSolver;
typedef Eigen::Matrix<F, N_X, 1> XV; typedef Eigen::Matrix<F, M_C + N_X, 1> YV;
struct Iter { VL s, yd; VL x, lam, p, yqp; ML H; L alpha; int qp_iter; bool qp_solved; VL h; ML A; L cost; };
class MonSolver : public SQPBase<MonSolver, NLP_NAME, QpSolver, N_PRE>
{
public:
    using Base = SQPBase<MonSolver, NLP_NAME, QpSolver, N_PRE>;
    using typename Base::scalar_t; using typename Base::nlp_variable_t; using typename Base::nlp_hessian_t;
    std::vector<Iter>* log = nullptr; int regularise = 1;
    scalar_t step_size_selection_impl(const Eigen::Ref<const nlp_variable_t>& p) noexcept
    {
        Iter it;
        it.x = this->m_x.template cast<L>(); it.lam = this->m_lam.template cast<L>(); it.p = p.template cast<L>(); it.yqp = this->m_lam_k.template cast<L>(); it.H = this->m_H.template cast<L>();
        it.h = this->m_h.template cast<L>(); it.A = this->m_A.template cast<L>();
        it.qp_iter = this->m_qp_solver.info().iter; it.qp_solved = this->m_qp_solver.info().status == SOLVED;
        const scalar_t a = Base::step_size_selection_impl(p);
        it.alpha = a; it.cost = this->m_cost; it.s = last_s; it.yd = last_y;
        // a run that left the region where numbers mean anything is stopped instead of driving the QP solver into overflow
        if (!(it.p.allFinite() && it.yqp.allFinite() && it.x.norm() < 1e4L && it.p.norm() < 1e6L && (it.x + it.alpha * it.p).norm() < 100 && it.H.norm() < 1e10L)) { runaway = true; this->m_settings.max_iter = 0; }
        if (log) log->push_back(it);
        if (getenv("SQP_TRACE")) { Eigen::IOFormat f(6, Eigen::DontAlignCols, ",", ","); std::cerr << "x " << it.x.transpose().format(f) << " p " << it.p.transpose().format(f) << " yqp " << it.yqp.transpose().format(f) << " lam " << it.lam.transpose().format(f) << " alpha " << it.alpha << " qp " << it.qp_iter << "/" << it.qp_solved << " H " << it.H.format(f) << "\n"; }
        return a;
    }
    VL last_s, last_y; bool runaway = false;
    EIGEN_STRONG_INLINE void hessian_update_impl(Eigen::Ref<nlp_hessian_t> H, const Eigen::Ref<const nlp_variable_t>& s, const Eigen::Ref<const nlp_variable_t>& y) noexcept
    {
        last_s = s.template cast<L>(); last_y = y.template cast<L>();
        Base::hessian_update_impl(H, s, y);
        const L lim = sizeof(F) == 4 ? 3e4L : 1e7L, nh = H.template cast<L>().norm();
        bool away = !(nh < lim) || !(this->m_lam.template cast<L>().norm() < lim) || !(this->m_h.template cast<L>().norm() < 1e15L) || !(this->m_A.template cast<L>().norm() < 1e15L);
        if (!away) away = Eigen::SelfAdjointEigenSolver<ML>(H.template cast<L>(), Eigen::EigenvaluesOnly).eigenvalues()(0) < (sizeof(F) == 4 ? -1e-5L : -1e-4L) * nh;
        if (away) { runaway = true; this->m_settings.max_iter = 0; H.setIdentity(); this->m_A.setZero(); this->m_h.setZero(); }
    }
    EIGEN_STRONG_INLINE void hessian_regularisation_dense_impl(Eigen::Ref<nlp_hessian_t> H) noexcept
    {
        if (!regularise) return;
        Eigen::SelfAdjointEigenSolver<Eigen::Matrix<scalar_t, N_X, N_X>> es; es.compute(H);
        Eigen::Matrix<scalar_t, N_X, 1> ev = es.eigenvalues();
        if (!(ev.minCoeff() > scalar_t(1e-3))) { ev = ev.cwiseAbs().cwiseMax(scalar_t(0.1)); H = es.eigenvectors() * ev.asDiagonal() * es.eigenvectors().transpose(); }
    }
};
