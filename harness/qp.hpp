// QP workload shared by the QP monitors: problem generator, a type-erased view of every solver variant,
// and the oracle that judges an answer from the original data only.
#ifndef QP_HPP
#define QP_HPP
#include "vt.hpp"
#include <Eigen/Dense>
#include <Eigen/Sparse>
#include <memory>

namespace qpt {
using Eigen::MatrixXd;
using Eigen::VectorXd;
static const double INF = std::numeric_limits<double>::infinity();
enum Status { ST_SOLVED = 0, ST_MAX_ITER = 1 };

struct Prob
{
    int n = 0, m = 0;
    MatrixXd H, A;
    VectorXd h, Al, Au, xl, xu;
    VectorXd xs, ya, yb;   // planted optimum (if planted)
    double mu = 0, L = 0;  // eigenvalue bounds of H
    bool planted = false;
    MatrixXd patH, patA;   // storage pattern for the sparse variants (nonzero = stored); empty = natural
};

struct GenOpt
{
    double mu = 0.5, L = 5;
    double density = 1.0;     // of A
    int hkind = 0;            // 0 full, 1 diagonal, 2 sparse (tridiagonal like)
    double scale = 1.0;       // magnitude of x*
    double p_inf = 0.3;       // one sided bounds
    double p_loose = 0.15;    // both sides infinite
    double p_eq = 0.25, p_act = 0.3;
    double mult = 1.0;        // magnitude of multipliers
    double p_boxeq = 0.05;
    double loose_value = INF;
    double min_sigma = 0;     // smallest singular value of the active constraint normals (regular optimum)
};

struct Sett
{
    double rho = 0.1, sigma = 1e-6, alpha = 1;
    int check = 25;
    bool adapt = false;
    double tol = 5;
    int interval = 25;
    double eps_abs = 1e-3, eps_rel = 1e-3;
    int max_iter = 1000;
    bool reuse = false;
    std::string str() const;
};

struct Res
{
    int st = -1, info_st = -1;
    VectorXd x, y;
    int iter = 0, rho_updates = 0;
    double rp = 0, rd = 0, rho_est = 0;
    bool inputs_kept = true;   // H, h, A, bounds and guesses bitwise unchanged by the call
};

struct IQP
{
    int n, m;
    bool sparse, flt, cg, box;
    std::string name;
    virtual ~IQP() {}
    virtual void apply(const Sett&) = 0;
    virtual Res solve(const Prob&, const VectorXd* x = nullptr, const VectorXd* y = nullptr) = 0;
};
struct Variant { std::string name; int n, m; bool sparse, flt, cg, box; std::unique_ptr<IQP> (*make)(int fill); };
inline std::vector<Variant>& variants() { static std::vector<Variant> v; return v; }

MatrixXd random_orth(vt::Rng&, int n);
MatrixXd random_spd(vt::Rng&, int n, double mu, double L);
Prob planted(vt::Rng&, int n, int m, const GenOpt&);      // strictly convex with a known KKT point
Prob random_problem(vt::Case&, int n, int m, bool flt = false);             // any kind: PSD, LP, infeasible, dependent rows, badly scaled, ...
void random_settings(vt::Rng&, Sett&, bool flt);          // every documented setting
void round_float(Prob&);
void mix(vt::Case&, const Prob&);
double nrm(const VectorXd& v);
std::string vec(const VectorXd& v);

struct Cert { double ep = 0, ed = 0; bool finite = true; };
Cert certificate(vt::Case&, const std::string& key, const Prob&, const Res&, double eps_abs, double eps_rel, double ueps);
double distance_bound(const Prob&, const Res&, const Cert&, double slack);
Eigen::SparseMatrix<double> to_sparse(const MatrixXd& m, const MatrixXd& pat); // uncompressed, as documented
} // namespace qpt
#endif
