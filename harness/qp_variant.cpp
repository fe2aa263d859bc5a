// one solver instantiation behind the IQP interface; -DV_ALIAS -DV_S -DV_N -DV_M -DV_SP
#include "qp.hpp"
#include "solvers/admm.hpp"
#include "solvers/box_admm.hpp"
namespace qpt {
template <class S, int N, int M> using DADMM = ADMM<N, M, S>;
template <class S, int N, int M> using DBOX = boxADMM<N, M, S>;
template <class S, int N, int M> using SADMM = ADMM<N, M, S, SPARSE, linear_solver_traits<SPARSE>::default_solver>;
template <class S, int N, int M> using SBOX = boxADMM<N, M, S, SPARSE, linear_solver_traits<SPARSE>::default_solver>;
template <class S, int N, int M> using DADMM_CG = ADMM<N, M, S, DENSE, Eigen::ConjugateGradient, Eigen::Lower | Eigen::Upper>;
template <class S, int N, int M> using DBOX_CG = boxADMM<N, M, S, DENSE, Eigen::ConjugateGradient, Eigen::Lower | Eigen::Upper>;
template <class S, int N, int M> using SADMM_CG = ADMM<N, M, S, SPARSE, Eigen::ConjugateGradient, Eigen::Lower | Eigen::Upper>;
template <class S, int N, int M> using SBOX_CG = boxADMM<N, M, S, SPARSE, Eigen::ConjugateGradient, Eigen::Lower | Eigen::Upper>;

template <class S> static bool same_bytes(const S* a, const S* b, long n) { return n == 0 || std::memcmp(a, b, n * sizeof(S)) == 0; }
template <class M> struct Snap { M m; };

template <class Mat> static bool same_mat(const Eigen::MatrixBase<Mat>& a, const Eigen::MatrixBase<Mat>& b) { return same_bytes(a.derived().data(), b.derived().data(), a.size()); }
template <class S> static bool same_mat(const Eigen::SparseMatrix<S>& a, const Eigen::SparseMatrix<S>& b)
{
    if (a.rows() != b.rows() || a.cols() != b.cols() || a.isCompressed() != b.isCompressed()) return false;
    for (int k = 0; k < a.outerSize(); ++k)
    {
        typename Eigen::SparseMatrix<S>::InnerIterator i(a, k), j(b, k);
        for (; i && j; ++i, ++j) if (i.index() != j.index() || std::memcmp(&i.valueRef(), &j.valueRef(), sizeof(S))) return false;
        if (i || j) return false;
    }
    return true;
}
template <class T, bool SP> struct Mk;
template <class T> struct Mk<T, false>
{
    using S = typename T::Scalar;
    static T make(const MatrixXd& m, const MatrixXd&) { return m.cast<S>(); }
};
template <class T> struct Mk<T, true>
{
    using S = typename T::Scalar;
    static T make(const MatrixXd& m, const MatrixXd& pat)
    { // copies keep the uncompressed layout
        Eigen::SparseMatrix<double> d = to_sparse(m, pat);
        T s(m.rows(), m.cols());
        Eigen::VectorXi nnz(m.cols());
        for (int j = 0; j < m.cols(); ++j) nnz(j) = std::max(1, d.innerNonZeroPtr()[j]);
        s.reserve(nnz);
        for (int j = 0; j < m.cols(); ++j) for (Eigen::SparseMatrix<double>::InnerIterator it(d, j); it; ++it) s.insert(it.row(), j) = (S)it.value();
        return s;
    }
};

template <class Solver, bool SP> struct Adapt : IQP
{
    using S = typename Solver::scalar_t;
    void* mem;
    Solver* s;
    explicit Adapt(int fill)
    {
        mem = aligned_alloc(64, (sizeof(Solver) + 63) / 64 * 64);
        vt::dirty(mem, fill, sizeof(Solver)); // stale memory of a chosen content below the object
        s = new (mem) Solver();
    }
    ~Adapt() { s->~Solver(); free(mem); }
    void apply(const Sett& t) override
    {
        auto& g = s->settings();
        g.rho = (S)t.rho; g.sigma = (S)t.sigma; g.alpha = (S)t.alpha; g.check_termination = t.check; g.adaptive_rho = t.adapt;
        g.adaptive_rho_tolerance = (S)t.tol; g.adaptive_rho_interval = t.interval; g.eps_abs = (S)t.eps_abs; g.eps_rel = (S)t.eps_rel;
        g.max_iter = t.max_iter; g.reuse_pattern = t.reuse;
    }
    Res solve(const Prob& p, const VectorXd* xg, const VectorXd* yg) override
    {
        using HT = typename Solver::qp_hessian_t; using AT = typename Solver::qp_constraint_t;
        MatrixXd ph = p.patH, pa = p.patA;
        if (!ph.size()) { ph = p.H; ph.diagonal().setOnes(); }
        if (!pa.size()) pa = p.A;
        const HT H = Mk<HT, SP>::make(p.H, ph);
        const AT A = Mk<AT, SP>::make(p.A, pa);
        const HT H2 = Mk<HT, SP>::make(p.H, ph);
        const AT A2 = Mk<AT, SP>::make(p.A, pa);
        using V = typename Solver::qp_var_t; using W = typename Solver::qp_dual_a_t; using Y = typename Solver::qp_dual_t;
        const V h = p.h.cast<S>(), xl = p.xl.cast<S>(), xu = p.xu.cast<S>();
        const W al = p.Al.cast<S>(), au = p.Au.cast<S>();
        const V h2 = h, xl2 = xl, xu2 = xu; const W al2 = al, au2 = au;
        Res r;
        bool kept = true;
        if (xg)
        {
            const V g = xg->cast<S>(), g2 = g; const Y y = yg->cast<S>(), y2 = y;
            r.st = (int)s->solve(H, h, A, al, au, xl, xu, g, y);
            kept = same_mat(g, g2) && same_mat(y, y2);
        }
        else r.st = (int)s->solve(H, h, A, al, au, xl, xu);
        r.inputs_kept = kept && same_mat(H, H2) && same_mat(A, A2) && same_mat(h, h2) && same_mat(xl, xl2) && same_mat(xu, xu2) && same_mat(al, al2) && same_mat(au, au2);
        r.x = s->primal_solution().template cast<double>();
        r.y = s->dual_solution().template cast<double>();
        r.iter = s->info().iter; r.rp = s->info().res_prim; r.rd = s->info().res_dual; r.info_st = (int)s->info().status;
        r.rho_updates = s->info().rho_updates; r.rho_est = s->info().rho_estimate;
        return r;
    }
};
#define STR_(x) #x
#define STR(x) STR_(x)
using TheSolver = V_ALIAS<V_S, V_N, V_M>;
static const bool is_sparse = V_SP;
static Variant desc()
{
    const std::string a = STR(V_ALIAS);
    Variant v;
    v.name = a + "<" STR(V_S) "," STR(V_N) "," STR(V_M) ">"; v.n = V_N; v.m = V_M; v.sparse = V_SP; v.flt = sizeof(V_S) == 4;
    v.cg = a.find("_CG") != std::string::npos; v.box = a.find("BOX") != std::string::npos;
    v.make = nullptr;
    return v;
}
static std::unique_ptr<IQP> mk(int fill)
{
    std::unique_ptr<IQP> q(new Adapt<TheSolver, is_sparse>(fill));
    Variant v = desc();
    q->n = v.n; q->m = v.m; q->sparse = v.sparse; q->flt = v.flt; q->cg = v.cg; q->box = v.box; q->name = v.name;
    return q;
}
namespace { struct R { R() { Variant v = desc(); v.make = &mk; variants().push_back(v); } } reg; }
} // namespace qpt
