// SQP: what a reported status, solution and info() promise; convergence on planted convex problems.
#include "sqp_nlp.hpp"
namespace {
const L U = sizeof(F) == 4 ? 1.2e-7L : 2.3e-16L;
void load(MonSolver& s, const sq::Data& d)
{
    s.problem.d = &d;
    for (int i = 0; i < N_X; ++i) { s.lower_bound_x()(i) = (F)d.lbx(i); s.upper_bound_x()(i) = (F)d.ubx(i); }
    for (int i = 0; i < N_I; ++i) { s.lower_bound_g()(i) = (F)d.lbg(i); s.upper_bound_g()(i) = (F)d.ubg(i); }
    for (int i = 0; i < N_P; ++i) s.parameters()(i) = (F)d.p(i);
}
struct Mem // solver built over memory of a chosen content
{
    void* m; MonSolver* s;
    explicit Mem(int fill) { m = aligned_alloc(64, (sizeof(MonSolver) + 63) / 64 * 64); vt::dirty(m, fill, sizeof(MonSolver)); s = new (m) MonSolver(); }
    ~Mem() { s->~MonSolver(); free(m); }
};
// what the report promises, for every solve whatever the problem
bool report(vt::Case& c, MonSolver& s, const int max_iter, const sq::Data& d, const std::vector<Iter>& log, const VL& x0, const VL& lam0)
{
    const auto& in = s.info(); const auto& st = s.settings();
    if (s.runaway) { c.event("runaway"); return true; }
    const VL x = s.primal_solution().template cast<L>(), lam = s.dual_solution().template cast<L>();
    if (!c.check(in.iter >= 1 && in.iter <= std::max(1, max_iter) && (long)log.size() == in.iter, "iteration-count", vt::fmt("iter %d, QPs %zu, max %d", in.iter, log.size(), max_iter))) return false;
    long q = 0; for (auto& i : log) q += i.qp_iter;
    c.check(in.qp_solver_iter == q, "qp-iteration-sum", vt::fmt("%d vs %ld", in.qp_solver_iter, q));
    c.check(log[0].x == x0 && log[0].lam == lam0, "start-point");
    bool fin = true;
    for (size_t k = 0; k < log.size(); ++k)
    { // every step is alpha times the QP step, and the linearisation is that of the current iterate
        const Iter& i = log[k];
        if (!(i.x.allFinite() && i.p.allFinite() && i.yqp.allFinite() && i.x.norm() < 1e4L)) { fin = false; break; }
        const VL xn = k + 1 < log.size() ? log[k + 1].x : x, ln = k + 1 < log.size() ? log[k + 1].lam : lam;
        const L pn = i.p.norm(), yn = i.yqp.norm() + i.lam.norm();
        if (!c.check((xn - i.x - i.alpha * i.p).norm() <= 16 * U * (i.x.norm() + pn + 1), "primal-step", vt::fmt("iteration %zu", k + 1))) return false;
        if (!c.check((ln - i.lam - i.alpha * (i.yqp - i.lam)).norm() <= 32 * U * (yn + 1), "dual-step", vt::fmt("iteration %zu", k + 1))) return false;
        const VL g = d.f.grad(i.x, d.p); const ML J = d.jac(i.x);
        L mag = 1 + i.x.squaredNorm(); const L big = g.norm() + (J.size() ? J.norm() : 0) + d.f.Q.norm() * i.x.norm() + d.f.c.norm() + (d.p.size() ? d.f.C.norm() * d.p.norm() : 0);
        for (auto& e : d.e) mag += e.Q.norm() * i.x.norm() + e.c.norm(); for (auto& e : d.g) mag += e.Q.norm() * i.x.norm() + e.c.norm();
        // the equilibrating preconditioner scales and unscales the data: allow its rounding
        const L tol = 3000 * U * (big + mag) * (1 + i.x.norm());
        if (big < 1e6L) { if (!c.nearm(i.h, g, (double)tol, "linearisation/gradient")) return false; if (M_C && !c.nearm(i.A, J, (double)tol, "linearisation/jacobian")) return false; }
        if (k > 0 && i.s.size() && big < 1e6L)
        { // the pair the Hessian approximation learns from: the last step, and the change of the Lagrangian gradient along it
            const Iter& o = log[k - 1];
            c.event("bfgs_pair");
            if (!c.check((i.s - o.alpha * o.p).norm() <= 16 * U * (i.s.norm() + 1), "bfgs-pair/step")) return false;
            auto lg = [&](const VL& gg, const ML& JJ, const VL& l) { VL v = gg + l.tail(N_X); if (M_C) v += JJ.transpose() * l.head(M_C); return v; };
            const VL g0 = d.f.grad(o.x, d.p); const ML J0 = d.jac(o.x);
            const L yt = tol * (2 + i.lam.norm() + o.lam.norm()) * 4 + 3000 * U * (g0.norm() + J0.norm());
            const VL right = lg(g, J, i.lam) - lg(g0, J0, i.lam), mixed = lg(g, J, i.lam) - lg(g0, J0, o.lam);
            if ((i.yd - right).norm() <= yt) c.event("bfgs_pair_exact");
            else if ((i.yd - mixed).norm() <= yt) c.check(false, "bfgs-pair/gradients-taken-at-different-multipliers", vt::fmt("|y - y_right| = %Lg", (i.yd - right).norm()));
            else if (!c.check(false, "bfgs-pair/gradient-change", vt::fmt("|y - y_right| = %Lg", (i.yd - right).norm()))) return false;
        }
        if (k == 0 && !s.regularise && big < 1e6L) { const ML W = d.lagh(i.x, i.lam); if (!c.nearm(i.H, W, (double)((1 + i.lam.norm()) * 10 * tol), "linearisation/hessian")) return false; }
    }
    if (!fin) { c.event("diverged"); c.check(in.status.value != sqp_status_t::SOLVED, "SOLVED-but-not-finite"); return true; }
    const Iter& l = log.back();
    const L v = d.violinf(x), vtol = 1e-3L * (L)st.eps_prim + 3000 * U * (1 + x.squaredNorm()) * 10, an = l.alpha * l.p.lpNorm<Eigen::Infinity>(), dn = l.alpha * (l.yqp - l.lam).lpNorm<Eigen::Infinity>();
    c.near(s.constr_violation(), (double)v, (double)(vtol + 1e-5L * std::fabs(v)), "constr_violation()"); c.near(s.primal_norm(), (double)an, (double)(32 * U * (an + 1)), "primal_norm()"); c.near(s.dual_norm(), (double)dn, (double)(64 * U * (dn + l.yqp.norm() + l.lam.norm() + 1)), "dual_norm()");
    const bool small = an <= st.eps_prim * (1 - 1e-6L) && dn <= st.eps_dual * (1 - 1e-6L) - 64 * U * l.yqp.norm() && v <= (L)st.eps_prim - vtol;
    if (in.status.value == sqp_status_t::SOLVED)
    {
        c.event("solved");
        c.check(v <= (L)st.eps_prim + vtol, "SOLVED-but-infeasible", vt::fmt("violation %Lg", v));
        c.check(an <= st.eps_prim * (1 + 1e-5L) + 32 * U * (an + 1) && dn <= st.eps_dual * (1 + 1e-5L) + 64 * U * (l.yqp.norm() + 1), "SOLVED-but-step-large", vt::fmt("%Lg %Lg", an, dn));
        // stationarity of the returned point
        VL r = d.f.grad(x, d.p) + lam.tail(N_X); const ML J = d.jac(x); if (M_C) r += J.transpose() * lam.head(M_C);
        const L W = d.lagh(x, lam).norm() + d.lagh(l.x, lam).norm() + 1, kkt = r.lpNorm<Eigen::Infinity>(), expect = (W + l.H.norm()) * 4 * (L)st.eps_prim * N_X + (2 + (M_C ? J.norm() : 0)) * (L)st.eps_dual;
        if (l.qp_solved && l.alpha == 1)
        {
            c.event("solved_full_step");
            const L qt = (L)s.qp_settings().eps_abs + (L)s.qp_settings().eps_rel * (l.H.norm() * l.p.norm() + l.h.norm() + (M_C ? l.A.norm() * l.yqp.norm() : 0) + l.yqp.norm());
            const bool scaled = !std::is_same<N_PRE, polympc::IdentityPreconditioner>::value; // tolerances then refer to the scaled problem
            c.check(kkt <= expect + (scaled ? 100 : 4) * qt + 1e4L * U, "SOLVED-but-not-stationary", vt::fmt("|grad L| = %Lg, allowed %Lg", kkt, expect + 4 * qt));
        }
        else { c.event(l.qp_solved ? "solved_reduced_step" : "solved_qp_limit"); c.check(!(kkt > 10 * (expect + 0.01L)), l.qp_solved ? "SOLVED-but-not-stationary/after-a-reduced-step" : "SOLVED-but-not-stationary/after-an-unconverged-QP", vt::fmt("|grad L| = %Lg, alpha = %Lg", kkt, l.alpha)); }
    }
    else
    {
        c.event("not_solved");
        c.check(in.status.value == sqp_status_t::MAX_ITER_EXCEEDED && (in.iter == max_iter), "gave-up-early", vt::fmt("status %d iter %d", (int)in.status.value, in.iter));
        c.check(!small, "criteria-met-but-not-SOLVED");
    }
    if (st.line_search_max_iter > 1 && l.alpha > std::pow((L)st.tau, st.line_search_max_iter - 1.5L))
    {
        const L f = d.f.val(x, d.p); c.event("cost_reported");
        c.near(s.cost(), (double)f, (double)(3000 * U * (1 + std::fabs(f)) * (1 + x.squaredNorm() * (1 + d.f.Q.norm()))), "cost()");
    }
    return true;
}
void settings(vt::Case& c, MonSolver& s, vt::Rng& r, bool wild)
{
    if (!wild) return;
    s.settings().tau = (F)r.pick(std::vector<double>{0.5, 0.5, 0.8, 0.2}); s.settings().eta = (F)r.pick(std::vector<double>{0.25, 0.25, 1e-4, 0.5});
    s.settings().max_iter = r.pick(std::vector<int>{100, 50, 10, 3, 2, 1}); s.settings().line_search_max_iter = r.pick(std::vector<int>{100, 10, 5, 2});
    const double e = r.pick(sizeof(F) == 4 ? std::vector<double>{1e-2, 1e-3} : std::vector<double>{1e-2, 1e-3, 1e-4, 1e-6});
    s.settings().eps_prim = (F)e; s.settings().eps_dual = (F)(e * r.pick(std::vector<double>{1, 10, 1e3}));
    s.qp_settings().max_iter = r.pick(std::vector<int>{100, 1000, 5000, 10}); s.qp_settings().eps_abs = (F)std::max(e * r.pick(std::vector<double>{0.1, 0.01}), sizeof(F) == 4 ? 1e-4 : 0); s.qp_settings().eps_rel = s.qp_settings().eps_abs;
}
void reports(vt::Case& c)
{
    vt::Rng& r = c.rng;
    Mem used(r.pick(std::vector<int>{0, 0xff, 0x40}));
    MonSolver& s = *used.s; if (sizeof(F) == 4) s.qp_settings().sigma = (F)1e-3; settings(c, s, r, r.chance(0.8)); s.regularise = 1;
    c.nontrivial();
    const int n = r.range(1, 4);
    std::vector<sq::Data> ds(n);
    XV carry, px0; YV carryl, py0; bool have = false;
    for (int k = 0; k < n; ++k)
    {
        ds[k] = sq::random_data(r, N_X, N_E, N_I, N_P);
        const bool rel = k > 0 && r.chance(0.5);
        if (rel)
        { // the previous problem with some parts replaced
            sq::Data& a = ds[k]; const sq::Data& b = ds[k - 1]; c.event("related");
            if (r.chance(0.7)) a.f = b.f; if (r.chance(0.7)) { a.e = b.e; a.g = b.g; } if (r.chance(0.6)) { a.lbx = b.lbx; a.ubx = b.ubx; } if (r.chance(0.6)) { a.lbg = b.lbg; a.ubg = b.ubg; } if (r.chance(0.6)) a.p = b.p;
        }
        if (k > 0 && r.chance(0.3)) { settings(c, s, r, true); c.event("settings_changed"); }
        const sq::Data& d = ds[k];
        load(s, d);
        XV x0; YV y0;
        for (int i = 0; i < N_X; ++i) x0(i) = (F)(r.normal() * r.pick(std::vector<double>{0.5, 2}));
        for (int i = 0; i < M_C + N_X; ++i) y0(i) = (F)(r.chance(0.5) ? 0 : r.normal());
        if (rel && r.chance(0.6)) { x0 = px0; if (r.chance(0.6)) y0 = py0; } px0 = x0; py0 = y0;
        c.mixm(x0); c.mixm(y0);
        c.cfg = vt::fmt("solve %d of %d, tau=%g eta=%g eps=%g/%g max_iter=%d ls=%d qp_max=%d qp_eps=%g reg=%d", k + 1, n, (double)s.settings().tau, (double)s.settings().eta, (double)s.settings().eps_prim, (double)s.settings().eps_dual, s.settings().max_iter, s.settings().line_search_max_iter, s.qp_settings().max_iter, (double)s.qp_settings().eps_abs, s.regularise);
        std::vector<Iter> log; s.log = &log; const int max_iter = s.settings().max_iter;
        const bool cont = have && r.chance(0.3);
        if (cont) { x0 = carry; y0 = carryl; s.solve(); c.event("continued"); } else s.solve(x0, y0);
        if (!report(c, s, max_iter, d, log, x0.template cast<L>(), y0.template cast<L>())) return;
        // a fresh solver with the same settings gives the same answer
        Mem fresh(r.pick(std::vector<int>{0, 0xff, 0x40})); MonSolver& f = *fresh.s;
        f.settings() = s.settings(); f.settings().max_iter = max_iter; f.qp_settings().sigma = s.qp_settings().sigma; f.regularise = s.regularise; load(f, d);
        f.qp_settings().max_iter = s.qp_settings().max_iter; f.qp_settings().eps_abs = s.qp_settings().eps_abs; f.qp_settings().eps_rel = s.qp_settings().eps_rel;
        f.solve(x0, y0);
        c.event("fresh_compared");
        const bool same = std::memcmp(f.m_x.data(), s.m_x.data(), sizeof(F) * N_X) == 0 && std::memcmp(f.m_lam.data(), s.m_lam.data(), sizeof(F) * (M_C + N_X)) == 0 && f.info().iter == s.info().iter && f.info().qp_solver_iter == s.info().qp_solver_iter && f.info().status.value == s.info().status.value;
        if (!c.check(same, "depends-on-history", vt::fmt("solve %d: iter %d vs %d, |dx|=%g", k, s.info().iter, f.info().iter, (double)(f.m_x - s.m_x).norm()))) return;
        if (s.runaway) return;
        carry = s.primal_solution(); carryl = s.dual_solution(); have = carry.allFinite() && carryl.allFinite() && carry.norm() < 100;
    }
}
// one planted problem: 0 not solved, 1 solved to the planted optimum, 2 solved elsewhere
int one(vt::Case& c, bool affine)
{
    vt::Rng& r = c.rng;
    sq::Planted pl; int tries = 0;
    while (!sq::planted(r, N_X, N_E, N_I, N_P, pl, affine)) if (++tries > 50) { c.event("no_problem"); return 3; }
    Mem m(r.pick(std::vector<int>{0, 0xff})); MonSolver& s = *m.s; load(s, pl.d); s.regularise = r.chance(0.5);
    const double e = sizeof(F) == 4 ? 2e-3 : 1e-5;
    s.settings().max_iter = 300; s.settings().eps_prim = (F)e; s.settings().eps_dual = (F)e;
    s.qp_settings().max_iter = 20000; if (sizeof(F) == 4) s.qp_settings().sigma = (F)1e-3; s.qp_settings().eps_abs = (F)(e * 0.02); s.qp_settings().eps_rel = (F)(sizeof(F) == 4 ? 1e-5 : e * 0.02);
    XV x0; YV y0 = YV::Zero();
    const double far = r.pick(std::vector<double>{0, 0.1, 1, 3});
    for (int i = 0; i < N_X; ++i) x0(i) = (F)(pl.x(i) + far * r.normal());
    if (s.regularise && r.chance(0.3)) for (int i = 0; i < M_C + N_X; ++i) y0(i) = (F)(r.normal());
    if (far == 0 && r.chance(0.5)) y0 = pl.y.template cast<F>();
    c.nontrivial(); c.mixm(x0); c.mixm(pl.y);
    int act = 0; for (int i = 0; i < M_C + N_X; ++i) act += pl.y(i) != 0;
    c.cfg = vt::fmt("planted, affine=%d, %d active, start distance %g, reg=%d", affine, act, far, s.regularise);
    std::vector<Iter> log; s.log = &log;
    s.solve(x0, y0);
    report(c, s, 300, pl.d, log, x0.template cast<L>(), y0.template cast<L>());
    c.maximum(affine ? "iterations_affine" : "iterations", (double)log.size());
    const L ex = (s.m_x.template cast<L>() - pl.x).norm(), ey = (s.m_lam.template cast<L>() - pl.y).norm();
    if (s.runaway || s.info().status.value != sqp_status_t::SOLVED)
    {
        c.event("unsolved");
        if (affine && !s.runaway) c.check(ex <= 1e-2L, "quadratic-program-not-solved", vt::fmt("runaway %d iter %d |x-x*|=%Lg", (int)s.runaway, s.info().iter, ex));
        return 0;
    }
    c.event(vt::fmt("active%d", std::min(act, 4)));
    const L tol = 100 * (L)e * (1 + pl.y.norm());
    if (affine)
    {
        c.maximum("affine_xerr/tol", (double)(ex / tol)); c.maximum("affine_yerr", (double)ey);
        c.check(ex <= tol, "wrong-minimiser", vt::fmt("|x-x*|=%Lg", ex));
        if (log.back().alpha == 1 && log.back().qp_solved) c.check(ey <= 20 * tol + 100 * log.back().H.norm() * log.back().p.norm(), "wrong-multipliers", vt::fmt("|y-y*|=%Lg", ey));
    }
    else if (log.back().alpha < 1) c.maximum("reduced_step_xerr", (double)ex);
    return ex <= 0.02L * (1 + pl.x.norm()) ? 1 : 2;
}
void affine(vt::Case& c) { one(c, true); }
// convex nonlinear problems: the step rule gives no guarantee for a single problem, but most are solved to the optimum
void converges(vt::Case& c)
{
    int n = 0, ok = 0, el = 0;
    for (int k = 0; k < 80; ++k) { const int q = one(c, false); if (q == 3) continue; ++n; ok += q == 1; el += q == 2; }
    c.cfg = "batch of 80 planted convex problems";
    c.maximum("failure_rate", n ? 1 - (double)ok / n : 0); c.maximum("elsewhere_rate", n ? (double)el / n : 0);
    if (n > 40) c.check(ok >= 0.45 * n, "convex-problems-not-solved", vt::fmt("%d of %d planted convex problems solved to the optimum", ok, n));
}
#define STR2(x) #x
#define STR1(x) STR2(x)
vt::Reg r1("sqp_report_" STR1(NLP_NAME), reports, 800, 80000), r2("sqp_converges_" STR1(NLP_NAME), converges, 8, 400), r3("sqp_quadratic_" STR1(NLP_NAME), affine, 300, 30000);
}
