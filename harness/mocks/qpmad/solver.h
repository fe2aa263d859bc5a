// Stand-in for qpmad (not installed): records the problem, answers with what the harness prescribes.
#ifndef VT_MOCK_QPMAD_SOLVER_H
#define VT_MOCK_QPMAD_SOLVER_H
#include <Eigen/Dense>
namespace qpmad {
typedef Eigen::VectorXd QPVector; typedef Eigen::MatrixXd QPMatrix;
struct SolverParameters { enum HessianType { UNDEFINED = 0, HESSIAN_LOWER_TRIANGULAR = 1, HESSIAN_CHOLESKY_FACTOR = 2 }; HessianType hessian_type_ = HESSIAN_LOWER_TRIANGULAR; double tolerance_ = 1e-12; int max_iter_ = -1; };
struct Script { QPVector x; int status = 0; static Script& get() { static Script s; return s; } };
struct Seen { QPMatrix H, A; QPVector h, lb, ub, al, au; SolverParameters p; int solves = 0; static Seen& get() { static Seen s; return s; } };
template <typename S, int N, int B, int M> class SolverTemplate
{
public:
    enum ReturnStatus { OK = 0, INFEASIBLE_EQUALITY = 1, INFEASIBLE_INEQUALITY = 2, MAXIMAL_NUMBER_OF_ITERATIONS = 3 };
    ReturnStatus solve(QPVector& x, QPMatrix& H, const QPVector& h, const QPVector& lb, const QPVector& ub, const QPMatrix& A, const QPVector& al, const QPVector& au, const SolverParameters& p)
    {
        Seen& k = Seen::get(); k.H = H; k.A = A; k.h = h; k.lb = lb; k.ub = ub; k.al = al; k.au = au; k.p = p; ++k.solves;
        H.setConstant(NAN); // factorised in place
        x = Script::get().x; return (ReturnStatus)Script::get().status;
    }
};
typedef SolverTemplate<double, -1, 1, -1> Solver;
}
#endif
