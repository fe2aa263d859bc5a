// What the OSQP and qpmad adapters hand over, and what they make of the answer. -D A_N A_M
#include "mocks/OsqpEigen/OsqpEigen.h"
#include "mocks/qpmad/solver.h"
#define POLYMPC_FOUND_QPMAD 1
#include <Eigen/Dense>
#include "utils/helpers.hpp"
#include "solvers/osqp_interface.hpp"
#include "solvers/qpmad_interface.hpp"
#include "qp.hpp"
namespace {
using namespace qpt;
typedef Eigen::VectorXd V; typedef Eigen::MatrixXd M;
const int N_ = A_N, M_ = A_M;
bool eq(const M& a, const M& b) { return a.rows() == b.rows() && a.cols() == b.cols() && (a.array() == b.array()).all(); }
Prob some(vt::Rng& r, const M* patH, const M* patA)
{
    Prob p; p.n = N_; p.m = M_;
    p.H = M::Zero(N_, N_); p.A = M::Zero(M_, N_); p.h.resize(N_); p.Al.resize(M_); p.Au.resize(M_); p.xl.resize(N_); p.xu.resize(N_);
    p.patH = M::Zero(N_, N_); p.patA = M::Zero(M_, N_);
    for (int i = 0; i < N_; ++i) for (int j = 0; j <= i; ++j) { const bool in = patH ? (*patH)(i, j) != 0 : i == j || r.chance(0.5); p.patH(i, j) = p.patH(j, i) = in; if (in) p.H(i, j) = p.H(j, i) = r.chance(0.1) ? 0 : r.uniform(-2, 2); }
    const double full = r.unit();
    for (int i = 0; i < M_; ++i) for (int j = 0; j < N_; ++j) { const bool in = patA ? (*patA)(i, j) != 0 : r.chance(full); p.patA(i, j) = in; if (in) p.A(i, j) = r.chance(0.1) ? 0 : r.uniform(-2, 2); }
    auto lo = [&]() { return r.chance(0.2) ? -INF : r.uniform(-3, 0); }; auto up = [&]() { return r.chance(0.2) ? INF : r.uniform(0, 3); };
    for (int i = 0; i < N_; ++i) { p.h(i) = r.uniform(-2, 2); p.xl(i) = lo(); p.xu(i) = up(); }
    for (int i = 0; i < M_; ++i) { p.Al(i) = lo(); p.Au(i) = up(); if (r.chance(0.2)) p.Al(i) = p.Au(i) = r.normal(); }
    return p;
}
// some parts as in the previous problem
Prob related(vt::Rng& r, Prob p, const Prob& l)
{
    if (r.chance(0.5)) { p.H = l.H; p.patH = l.patH; } if (r.chance(0.5)) { p.A = l.A; p.patA = l.patA; }
    if (r.chance(0.5)) p.h = l.h; if (r.chance(0.5)) p.Al = l.Al; if (r.chance(0.5)) p.Au = l.Au; if (r.chance(0.5)) p.xl = l.xl; if (r.chance(0.5)) p.xu = l.xu;
    return p;
}
M stack(const Prob& p) { M a(N_ + M_, N_); a.topRows(M_) = p.A; a.bottomRows(N_).setIdentity(); return a; }
V stack(const V& a, const V& b) { V v(a.size() + b.size()); v << a, b; return v; }
V rnd(vt::Rng& r, int n) { V v(n); for (int i = 0; i < n; ++i) v(i) = r.normal(); return v; }
template <class S> void common(vt::Rng& r, S& t)
{
    t.eps_abs = r.logu(1e-9, 1e-1); t.eps_rel = r.logu(1e-9, 1e-1); t.max_iter = r.range(1, 5000); t.hessian_type = r.range(0, 2);
    t.verbose = r.chance(0.5); t.rho = r.logu(1e-3, 10); t.sigma = r.logu(1e-8, 1e-2); t.alpha = r.uniform(0.1, 1.9); t.check_termination = r.range(1, 60); t.adaptive_rho = r.chance(0.5); t.adaptive_rho_tolerance = r.uniform(2, 9); t.adaptive_rho_interval = r.range(1, 90);
    t.delta = r.logu(1e-8, 1e-2); t.polish = r.chance(0.5); t.scaling = r.range(0, 20); t.time_limit = r.unit(); t.polish_refine_iter = r.range(1, 9); t.osqp_linear_solver = r.range(0, 1); t.scaled_termination = r.chance(0.5); t.adaptive_rho_fraction = r.unit(); t.eps_dual_inf = r.logu(1e-9, 1e-1); t.eps_prim_inf = r.logu(1e-9, 1e-1);
}
void osqp(vt::Case& c)
{
    vt::Rng& r = c.rng; typedef polympc::OSQP<N_, M_, double> Solver;
    std::unique_ptr<Solver> q(new Solver);
    c.check(q->get_solver_data().data()->n == N_ && q->get_solver_data().data()->m == N_ + M_, "osqp/size");
    M patH, patA; Prob last; int solves = 0; V lx, ly; c.nontrivial();
    const int steps = r.range(2, 6);
    for (int k = 0; k < steps; ++k)
    {
        auto& t = q->settings(); if (k == 0 || r.chance(0.5)) common(r, t);
        t.warm_start = k > 0 && r.chance(0.6); t.reuse_pattern = k > 0 && r.chance(0.5); const bool guess = r.chance(0.5);
        Prob p = some(r, t.reuse_pattern ? &patH : nullptr, t.reuse_pattern ? &patA : nullptr); if (k > 0 && r.chance(0.6)) { p = related(r, p, last); c.event("related"); } last = p; patH = p.patH; patA = p.patA;
        c.event(vt::fmt("warm%d_reuse%d_guess%d", (int)t.warm_start, (int)t.reuse_pattern, (int)guess)); c.mixin(p.h(0)); c.cfg = vt::fmt("warm %d reuse %d guess %d", (int)t.warm_start, (int)t.reuse_pattern, (int)guess);
        OsqpEigen::Script& s = OsqpEigen::Script::get(); s.x = rnd(r, N_); s.y = rnd(r, N_ + M_);
        const int codes[][2] = {{OSQP_SOLVED, SOLVED}, {OSQP_SOLVED_INACCURATE, SOLVED}, {OSQP_PRIMAL_INFEASIBLE, INFEASIBLE}, {OSQP_DUAL_INFEASIBLE, INFEASIBLE}, {OSQP_MAX_ITER_REACHED, MAX_ITER_EXCEEDED}, {OSQP_UNSOLVED, UNSOLVED}, {OSQP_TIME_LIMIT_REACHED, -1}, {OSQP_NON_CVX, -1}, {OSQP_PRIMAL_INFEASIBLE_INACCURATE, -1}, {OSQP_DUAL_INFEASIBLE_INACCURATE, -1}, {OSQP_SIGINT, -1}};
        const int code = r.range(0, 10); s.info.status_val = codes[code][0]; s.info.iter = r.range(0, 4000); s.info.pri_res = r.unit(); s.info.dua_res = r.unit(); s.info.rho_updates = r.range(0, 20); s.info.rho_estimate = r.unit();
        const Eigen::SparseMatrix<double> H = to_sparse(p.H, p.patH), A = to_sparse(p.A, p.patA);
        const Eigen::Matrix<double, N_, 1> h = p.h, xl = p.xl, xu = p.xu; const Eigen::Matrix<double, M_, 1> al = p.Al, au = p.Au;
        const Eigen::Matrix<double, N_, 1> xg = k > 0 && r.chance(0.3) ? lx : rnd(r, N_); const Eigen::Matrix<double, N_ + M_, 1> yg = k > 0 && r.chance(0.3) ? ly : rnd(r, N_ + M_); lx = xg; ly = yg;
        const status_t st = guess ? q->solve(H, h, A, al, au, xl, xu, xg, yg) : q->solve(H, h, A, al, au, xl, xu);
        ++solves;
        const OsqpEigen::Seen& z = OsqpEigen::Seen::get();
        const std::string w = t.warm_start ? "osqp/warm" : "osqp/cold";
        c.check(eq(z.H, M(p.H.triangularView<Eigen::Upper>())), w + "/hessian"); c.check(eq(z.q, p.h), w + "/gradient");
        c.check(eq(z.A, stack(p)), w + "/constraints"); c.check(eq(z.l, stack(p.Al, p.xl)) && eq(z.u, stack(p.Au, p.xu)), w + "/bounds");
        c.check(z.warm == guess, w + "/guess-given"); if (guess && z.warm) c.check(eq(z.wx, xg) && eq(z.wy, yg), w + "/guess");
        c.check(eq(q->primal_solution(), s.x) && eq(q->dual_solution(), s.y), "osqp/solution");
        const auto& i = q->info();
        c.check(i.iter == s.info.iter && i.rho_updates == s.info.rho_updates && i.rho_estimate == s.info.rho_estimate, "osqp/info");
        c.check(i.res_prim == s.info.pri_res && i.res_dual == s.info.dua_res, "osqp/residuals", vt::fmt("got %g %g expected %g %g", (double)i.res_prim, (double)i.res_dual, s.info.pri_res, s.info.dua_res));
        c.check(st == i.status, "osqp/status-consistent"); c.check(codes[code][1] < 0 ? st != SOLVED : st == codes[code][1], "osqp/status", vt::fmt("OSQP %d reported as %d", codes[code][0], (int)st));
        const std::map<std::string, double>& v = q->get_solver_data().settings()->v;
        const std::map<std::string, double> want = {{"setRho", t.rho}, {"setAlpha", t.alpha}, {"setSigma", t.sigma}, {"setVerbosity", t.verbose}, {"setWarmStart", t.warm_start}, {"setAdaptiveRho", t.adaptive_rho}, {"setMaxIteration", t.max_iter}, {"setCheckTermination", t.check_termination},
            {"setAbsoluteTolerance", t.eps_abs}, {"setRelativeTolerance", t.eps_rel}, {"setAdaptiveRhoInterval", t.adaptive_rho_interval}, {"setAdaptiveRhoTolerance", t.adaptive_rho_tolerance}, {"setDelta", t.delta}, {"setPolish", t.polish}, {"setScaling", t.scaling}, {"setTimeLimit", t.time_limit}, {"setPolishRefineIter", t.polish_refine_iter},
            {"setLinearSystemSolver", t.osqp_linear_solver}, {"setScaledTerimination", t.scaled_termination}, {"setAdaptiveRhoFraction", t.adaptive_rho_fraction}, {"setPrimalInfeasibilityTolerance", t.eps_prim_inf}, {"setDualInfeasibilityTolerance", t.eps_dual_inf}};
        for (auto& e : want) { auto f = v.find(e.first); c.check(f != v.end() && f->second == e.second, "osqp/setting/" + e.first); }
    }
}
void qpmad_(vt::Case& c)
{
    vt::Rng& r = c.rng; typedef polympc::QPMAD<N_, M_, double> Solver;
    std::unique_ptr<Solver> q(new Solver); c.nontrivial();
    Prob last; const int steps = r.range(2, 5);
    for (int k = 0; k < steps; ++k)
    {
        auto& t = q->settings(); if (k == 0 || r.chance(0.5)) common(r, t);
        Prob p = some(r, nullptr, nullptr); if (k > 0 && r.chance(0.5)) p = related(r, p, last); last = p; c.mixin(p.h(0)); c.cfg = "qpmad";
        qpmad::Script& s = qpmad::Script::get(); s.x = rnd(r, N_); s.status = r.range(0, 3); c.event(vt::fmt("status%d", s.status));
        Eigen::Matrix<double, N_, N_> H = p.H; Eigen::Matrix<double, M_, N_> A = p.A;
        const Eigen::Matrix<double, N_, 1> h = p.h, xl = p.xl, xu = p.xu; const Eigen::Matrix<double, M_, 1> al = p.Al, au = p.Au;
        const status_t st = q->solve(H, h, A, al, au, xl, xu);
        const qpmad::Seen& z = qpmad::Seen::get();
        c.check(eq(z.H, p.H) && eq(z.h, p.h), "qpmad/objective"); c.check(eq(z.A, p.A) && eq(z.al, p.Al) && eq(z.au, p.Au), "qpmad/constraints"); c.check(eq(z.lb, p.xl) && eq(z.ub, p.xu), "qpmad/box");
        c.check(z.p.max_iter_ == t.max_iter && z.p.tolerance_ == t.eps_abs && (int)z.p.hessian_type_ == t.hessian_type, "qpmad/settings");
        c.check(eq(H, p.H), "qpmad/hessian-modified"); c.check(eq(q->primal_solution(), s.x), "qpmad/solution");
        c.check(s.status == 0 ? st == SOLVED : s.status == 3 ? st == MAX_ITER_EXCEEDED : st != SOLVED, "qpmad/status"); c.check(q->info().status == st, "qpmad/status-consistent", vt::fmt("returned %d, info %d", (int)st, (int)q->info().status));
    }
}
#define STR2(x) #x
#define STR1(x) STR2(x)
vt::Reg r1("osqp_" STR1(A_N) STR1(A_M), osqp, 1500, 60000);
vt::Reg r2("qpmad_" STR1(A_N) STR1(A_M), qpmad_, 500, 20000);
}
