// Stand-in for osqp-eigen (not installed): keeps what it is given the way the library does (gradient and bounds by address until
// initSolver, matrices by value, upper triangle of the Hessian) and answers with what the harness prescribes.
#ifndef VT_MOCK_OSQPEIGEN_H
#define VT_MOCK_OSQPEIGEN_H
#include <Eigen/Dense>
#include <Eigen/Sparse>
#include <memory>
#include <map>
#include <string>
typedef double c_float; typedef long long c_int;
#define OSQP_DUAL_INFEASIBLE_INACCURATE (4)
#define OSQP_PRIMAL_INFEASIBLE_INACCURATE (3)
#define OSQP_SOLVED_INACCURATE (2)
#define OSQP_SOLVED (1)
#define OSQP_MAX_ITER_REACHED (-2)
#define OSQP_PRIMAL_INFEASIBLE (-3)
#define OSQP_DUAL_INFEASIBLE (-4)
#define OSQP_SIGINT (-5)
#define OSQP_TIME_LIMIT_REACHED (-6)
#define OSQP_NON_CVX (-7)
#define OSQP_UNSOLVED (-10)
struct OSQPInfo { c_int iter = 0; char status[32]; c_int status_val = OSQP_UNSOLVED, status_polish = 0; c_float obj_val = 0, pri_res = 0, dua_res = 0; c_int rho_updates = 0; c_float rho_estimate = 0; };
struct OSQPWorkspace { OSQPInfo* info; };
namespace OsqpEigen {
typedef Eigen::VectorXd V; typedef Eigen::MatrixXd M;
struct Script { V x, y; OSQPInfo info; static Script& get() { static Script s; return s; } };
struct Seen { M H, A; V q, l, u, wx, wy; bool warm = false; int inits = 0, solves = 0; static Seen& get() { static Seen s; return s; } }; // the problem at solveProblem()
class Settings
{
public:
    std::map<std::string, double> v;
#define VT_SET(f) template <class T> void f(const T& a) { v[#f] = (double)a; }
    VT_SET(setRho) VT_SET(setAlpha) VT_SET(setSigma) VT_SET(setVerbosity) VT_SET(setWarmStart) VT_SET(setAdaptiveRho) VT_SET(setMaxIteration) VT_SET(setCheckTermination)
    VT_SET(setAbsoluteTolerance) VT_SET(setRelativeTolerance) VT_SET(setAdaptiveRhoInterval) VT_SET(setAdaptiveRhoTolerance) VT_SET(setDelta) VT_SET(setPolish) VT_SET(setScaling)
    VT_SET(setTimeLimit) VT_SET(setPolishRefineIter) VT_SET(setLinearSystemSolver) VT_SET(setScaledTerimination) VT_SET(setAdaptiveRhoFraction) VT_SET(setPrimalInfeasibilityTolerance) VT_SET(setDualInfeasibilityTolerance)
};
inline M dense(const Eigen::Ref<const Eigen::SparseMatrix<c_float>>& a) { M d = M::Zero(a.rows(), a.cols()); for (int k = 0; k < a.outerSize(); ++k) for (Eigen::Ref<const Eigen::SparseMatrix<c_float>>::InnerIterator it(a, k); it; ++it) d(it.row(), it.col()) += it.value(); return d; }
class Data
{
public:
    int n = -1, m = -1; M H, A; const double *q = nullptr, *l = nullptr, *u = nullptr;
    void setNumberOfVariables(int a) { n = a; } void setNumberOfConstraints(int a) { m = a; }
    bool setHessianMatrix(const Eigen::Ref<const Eigen::SparseMatrix<c_float>>& h) { H = M(dense(h).triangularView<Eigen::Upper>()); return H.rows() == n && H.cols() == n; }
    bool setGradient(Eigen::Ref<V> g) { q = g.data(); return g.rows() == n; }
    bool setLinearConstraintsMatrix(const Eigen::Ref<const Eigen::SparseMatrix<c_float>>& a) { A = dense(a); return A.rows() == m && A.cols() == n; }
    bool setLowerBound(Eigen::Ref<V> b) { l = b.data(); return b.rows() == m; }
    bool setUpperBound(Eigen::Ref<V> b) { u = b.data(); return b.rows() == m; }
};
class Solver
{
    std::unique_ptr<Settings> s{new Settings}; std::unique_ptr<Data> d{new Data}; OSQPInfo inf; OSQPWorkspace w{&inf}; std::unique_ptr<OSQPWorkspace> wp{new OSQPWorkspace{&inf}};
    M H, A; V q, l, u, wx, wy, x, y; bool warm = false;
public:
    const std::unique_ptr<Settings>& settings() const { return s; }
    const std::unique_ptr<Data>& data() const { return d; }
    const std::unique_ptr<OSQPWorkspace>& workspace() const { return wp; }
    bool initSolver()
    {
        H = d->H; A = d->A; q = Eigen::Map<const V>(d->q, d->n); l = Eigen::Map<const V>(d->l, d->m); u = Eigen::Map<const V>(d->u, d->m); warm = false; ++Seen::get().inits; return true;
    }
    bool updateHessianMatrix(const Eigen::Ref<const Eigen::SparseMatrix<c_float>>& h) { H = M(dense(h).triangularView<Eigen::Upper>()); return true; }
    bool updateGradient(const Eigen::Ref<const V>& g) { q = g; return true; }
    bool updateLinearConstraintsMatrix(const Eigen::Ref<const Eigen::SparseMatrix<c_float>>& a) { A = dense(a); return true; }
    bool updateBounds(const Eigen::Ref<const V>& lo, const Eigen::Ref<const V>& up) { l = lo; u = up; return true; }
    bool setWarmStart(const Eigen::Ref<const V>& a, const Eigen::Ref<const V>& b) { wx = a; wy = b; warm = true; return true; }
    bool solveProblem()
    {
        Seen& k = Seen::get(); k.H = H; k.A = A; k.q = q; k.l = l; k.u = u; k.wx = wx; k.wy = wy; k.warm = warm; ++k.solves; warm = false;
        x = Script::get().x; y = Script::get().y; inf = Script::get().info; return true;
    }
    const V& getSolution() { return x; }
    const V& getDualSolution() { return y; }
};
}
#endif
