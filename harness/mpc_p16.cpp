// Receding horizon runs: every answer reported SOLVED is judged against the optimality conditions of the problem as it stands at that step.
#include "mpc.hpp"
#include <Eigen/QR>
#include <Eigen/SVD>
namespace {
using oc::L; using oc::ML; using oc::VL;
typedef Eigen::MatrixXd M; typedef Eigen::VectorXd V;
const oc::Dims n = dims();
const int N = TestOcp::NUM_NODES, NV = TestOcp::VAR_SIZE, NE = TestOcp::NUM_EQ, NI = TestOcp::NUM_INEQ;
struct Bounds { VL lx, ux, lg, ug; };
struct Plan { oc::Point p; V x0; Bounds b; bool feasible; double cond; }; // one step of the run
// a feasible point of the linear(ised) problem with the given initial state, and bounds around it
Plan make(vt::Case& c, const mp::Lq& q, vt::Rng& r, double t0, double tf, const V& x0, const std::vector<double>& d, const Plan* keep)
{
    Plan k; k.x0 = x0; k.p.t0 = t0; k.p.tf = tf; k.p.d = d; k.p.var.assign(NV, 0); k.feasible = false; k.cond = INFINITY;
    auto rd = [&](double x) { return (double)(F)x; };
    oc::Ref e = oc::reference(q.s, k.p, VL(), 1, 1);
    V z = V::Zero(NV);
    for (int it = 0; it < (q.convex ? 1 : 15); ++it)
    {
        for (int i = 0; i < NV; ++i) k.p.var[i] = z(i);
        e = oc::reference(q.s, k.p, VL(), 1, 1);
        M A(NE + O_X, NV); A << e.J.topRows(NE).cast<double>(), M::Zero(O_X, NV); V b(NE + O_X); b.head(NE) = -e.c.head(NE).cast<double>();
        for (int i = 0; i < O_X; ++i) { A(NE + i, (N - 1) * O_X + i) = 1; b(NE + i) = x0(i) - z((N - 1) * O_X + i); }
        Eigen::JacobiSVD<M> svd(A, Eigen::ComputeThinU | Eigen::ComputeThinV); const V sv = svd.singularValues();
        int rank = 0; for (int i = 0; i < sv.size(); ++i) if (sv(i) > 1e-9 * sv(0)) ++rank;
        k.cond = sv(0) / sv(rank - 1); svd.setThreshold(1e-9);
        const V s = svd.solve(b); z += s;
        if ((A * s - b).norm() > 1e-8 || z.norm() > 100) return k;
        if (s.norm() < 1e-10) break;
    }
    for (int i = 0; i < NV; ++i) k.p.var[i] = z(i);
    e = oc::reference(q.s, k.p, VL(), 1, 0);
    for (int i = 0; i < O_X; ++i) if (std::fabs(z((N - 1) * O_X + i) - x0(i)) > 1e-7) return k;
    if (e.c.head(NE).lpNorm<Eigen::Infinity>() > 1e-7L) return k;
    k.feasible = true;
    Bounds& b = k.b;
    b.lx = VL::Constant(NV, -INFINITY); b.ux = VL::Constant(NV, INFINITY); b.lg = VL::Constant(NI, -INFINITY); b.ug = VL::Constant(NI, INFINITY);
    auto around = [&](double v, double& lo, double& hi) { const int w = r.range(0, 4); lo = w == 0 ? -INFINITY : rd(v - r.uniform(0.05, 1)); hi = w == 1 ? INFINITY : rd(v + r.uniform(0.05, 1)); if (w == 2) { lo = rd(v - 3); hi = rd(v + 3); } };
    for (int i = 0; i < O_X; ++i)
    {
        double lo = INFINITY, hi = -INFINITY, a, d2; for (int t = 0; t < N - 1; ++t) { lo = std::min(lo, z(t * O_X + i)); hi = std::max(hi, z(t * O_X + i)); }
        if (r.chance(0.5)) { around(lo, a, d2); for (int t = 0; t < N - 1; ++t) b.lx(t * O_X + i) = a; }
        if (r.chance(0.5)) { around(hi, a, d2); for (int t = 0; t < N - 1; ++t) b.ux(t * O_X + i) = d2; }
        if (r.chance(0.2)) { around(z(i), a, d2); b.lx(i) = a; b.ux(i) = d2; } // terminal set
        b.lx((N - 1) * O_X + i) = b.ux((N - 1) * O_X + i) = x0(i);
    }
    for (int j = 0; j < O_U; ++j)
    {
        double lo = INFINITY, hi = -INFINITY, a, d2; for (int t = 0; t < N; ++t) { lo = std::min(lo, z(N * O_X + t * O_U + j)); hi = std::max(hi, z(N * O_X + t * O_U + j)); }
        around(lo, a, d2); for (int t = 0; t < N; ++t) b.lx(N * O_X + t * O_U + j) = a;
        around(hi, a, d2); for (int t = 0; t < N; ++t) b.ux(N * O_X + t * O_U + j) = d2;
    }
    for (int j = 0; j < O_P; ++j) { double a, d2; around(z(N * (O_X + O_U) + j), a, d2); b.lx(N * (O_X + O_U) + j) = a; b.ux(N * (O_X + O_U) + j) = d2; }
    for (int j = 0; j < O_G; ++j)
    {
        double lo = INFINITY, hi = -INFINITY, a, d2; for (int t = 0; t < N; ++t) { lo = std::min(lo, (double)e.c(NE + t * O_G + j)); hi = std::max(hi, (double)e.c(NE + t * O_G + j)); }
        const int w = r.range(0, 3);
        around(lo, a, d2); if (w & 1) for (int t = 0; t < N; ++t) b.lg(t * O_G + j) = a;
        around(hi, a, d2); if (w & 2) for (int t = 0; t < N; ++t) b.ug(t * O_G + j) = d2;
    }
    (void)c; (void)keep;
    return k;
}
void load(Mpc& m, const Plan& k)
{
    typedef Eigen::Matrix<F, -1, 1> W;
    const W lx = k.b.lx.template cast<F>(), ux = k.b.ux.template cast<F>();
    const W xl = lx.head(N * O_X), xu = ux.head(N * O_X), ul = lx.segment(N * O_X, O_U), uu = ux.segment(N * O_X, O_U);
    m.state_bounds(xl.segment(O_X, O_X), xu.segment(O_X, O_X)); // every node but the initial one; then the terminal set, then the initial state
    m.final_state_bounds(xl.head(O_X), xu.head(O_X));
    m.initial_conditions(k.x0.template cast<F>());
    m.control_bounds(ul, uu);
#if O_P
    const W pl = lx.tail(O_P), pu = ux.tail(O_P); m.parameters_bounds(pl, pu);
#endif
#if O_G
    const W gl = k.b.lg.template cast<F>().head(O_G), gu = k.b.ug.template cast<F>().head(O_G); m.constraints_bounds(gl, gu);
#endif
#if O_D
    W d(O_D); for (int i = 0; i < O_D; ++i) d(i) = (F)k.p.d[i]; m.set_static_parameters(d);
#endif
}
bool judge(vt::Case& c, Mpc& m, const mp::Lq& q, Plan& k, bool must, bool clean)
{
    Trace& t = m.solver().tr;
    const VL x = m.solver().primal_solution().template cast<L>(), lam = m.solution_dual().template cast<L>();
    if (t.runaway || !x.allFinite() || !lam.allFinite()) { c.event("runaway"); return c.check(!must, "well-posed-problem-diverged"); }
    for (int i = 0; i < NV; ++i) k.p.var[i] = (double)x(i);
    const bool solved = m.info().status.value == sqp_status_t::SOLVED;
    const mp::Kkt w = mp::kkt(q.s, k.p, lam, k.b.lx, k.b.ux, k.b.lg, k.b.ug);
    const double eps = m.settings().eps_prim, rnd = (double)(3000 * U_ * (1 + w.mag * w.mag) * (1 + O_POLY * O_POLY));
    if (!c.check(t.iters == m.info().iter && m.info().iter <= std::max(1, (int)m.settings().max_iter), "info-iter")) return false;
    if (!c.near(m.constr_violation(), (double)w.feas, rnd + 1e-3 * eps + 1e-5 * (double)w.feas, "constr_violation()")) return false;
    c.near(m.cost(), (double)w.cost, t.alpha == 1 ? rnd * (1 + std::fabs((double)w.cost)) : INFINITY, "cost()");
    if (!solved)
    {
        c.event("not_solved");
        if (getenv("MPC_TRACE")) fprintf(stderr, "not solved: must %d feas %Lg stat %Lg iters %ld alpha %g qp %d cond %g |y| %g %s\n", must, w.feas, w.stat, t.iters, t.alpha, t.qp_solved, k.cond, t.ynorm, c.cfg.c_str());
        return c.check(!must, "well-posed-problem-not-solved", vt::fmt("violation %Lg, |grad L| %Lg, iterations %d", w.feas, w.stat, m.info().iter));
    }
    c.event(q.convex ? "solved_lq" : "solved_nonlinear"); if (clean) c.event("solved_first"); else c.event("solved_warm");
    if (must) c.event("well_posed");
    if (!c.check(w.feas <= eps + rnd, "SOLVED-but-infeasible", vt::fmt("%Lg > %g", w.feas, eps))) return false;
    if (!t.qp_solved) { c.event("solved_qp_limit"); return true; }
    if (t.alpha != 1) c.event("solved_reduced_step");
    const double qe = m.qp_settings().eps_abs;
    const oc::Ref g = oc::reference(q.s, k.p, lam.head(NE + NI), 1, 2);
    const double jn = (double)g.J.norm(), qd = qe * (1 + t.hnorm * t.pnorm * std::sqrt((double)NV) + t.gnorm + jn * t.ynorm + t.ynorm), qpr = qe * (1 + jn * (t.pnorm + 1) * std::sqrt((double)NV));
    // the QP answer makes the gradient vanish up to its tolerance and the last step; a reduced step keeps part of the old multipliers
    const double stat = 2 * qd + (double)(g.W.norm() + t.hnorm) * 2 * t.pnorm * std::sqrt((double)NV) + (1 - t.alpha) * jn * t.dy * std::sqrt((double)NV) + 1e4 * U_ * (1 + w.mag * w.mag) * (1 + t.ynorm) * O_POLY * O_POLY, comp = 4 * qpr + eps + rnd * (1 + t.ynorm);
    c.maximum("stationarity_over_allowed", (double)w.stat / stat); c.maximum("complementarity_over_allowed", (double)w.compl_ / comp);
    if (!c.check(w.stat <= stat, "SOLVED-but-not-stationary", vt::fmt("|grad L| = %Lg, allowed %g", w.stat, stat))) return false;
    if (!c.check(w.compl_ <= comp, "SOLVED-but-multiplier-of-inactive-bound", vt::fmt("%Lg, allowed %g", w.compl_, comp))) return false;
    c.event("certified");
    return true;
}
void body(vt::Case& c)
{
    vt::Rng& r = c.rng; c.nontrivial();
    auto rd = [&](double x) { return (double)(F)x; };
    MpcMem m1(r.pick(std::vector<int>{0, 0xff, 0x40})); std::unique_ptr<MpcMem> m2(new MpcMem(r.pick(std::vector<int>{0, 0xff, 0x40}))); Mpc &m = *m1.c;
    const mp::Lq q = mp::lq(r, n, r.chance(0.6) ? 0 : r.uniform(0.05, 0.4), SINGLE); m.ocp().s = &q.s;
    const double eps = r.pick(SINGLE ? std::vector<double>{1e-2} : std::vector<double>{1e-3, 1e-4}); const int qmax = r.pick(std::vector<int>{20000, 20000, 20000, 100}), imax = r.pick(std::vector<int>{60, 60, 60, 10, 2, 1});
    auto settings = [&](Mpc* a)
    {
        a->ocp().s = &q.s;
        a->settings().eps_prim = (F)eps; a->settings().eps_dual = (F)(10 * eps); a->settings().max_iter = imax; a->settings().line_search_max_iter = 10;
        a->qp_settings().eps_abs = a->qp_settings().eps_rel = (F)(SINGLE ? 1e-4 : 0.01 * eps); a->qp_settings().max_iter = qmax; if (SINGLE) a->qp_settings().sigma = (F)1e-3;
    };
    settings(&m); settings(m2->c);
    double t0 = 0, tf = 1; V x0(O_X); std::vector<double> d(O_D);
    for (int i = 0; i < O_X; ++i) x0(i) = rd(r.uniform(-1, 1)); for (auto& v : d) v = rd(r.uniform(-1, 1));
    bool rounded = false; long flips = 0;
    for (int step = 0; step < 4; ++step)
    {
        bool fresh = false;
        if (r.chance(step ? 0.2 : 0.6)) { t0 = rd(r.chance(0.5) ? t0 : r.uniform(-2, 2)); tf = rd(t0 + r.logu(0.4, 4)); m.set_time_limits((F)t0, (F)tf); m2->c->set_time_limits((F)t0, (F)tf); c.event("window"); }
        if (r.chance(0.3)) for (auto& v : d) v = rd(r.uniform(-1, 1));
        // the second controller is sometimes a new one, which starts from the same guess as the one with a history
        if (step && r.chance(0.4))
        {
            m2.reset(new MpcMem(r.pick(std::vector<int>{0, 0xff, 0x40}))); settings(m2->c); m2->c->set_time_limits((F)t0, (F)tf);
            const typename Mpc::traj_state_t xg = m.solution_x(); const typename Mpc::traj_control_t ug = m.solution_u(); const typename Mpc::dual_var_t lg = m.solution_dual();
            m2->c->x_guess(xg); m2->c->u_guess(ug); m2->c->lam_guess(lg);
#if O_P
            const typename Mpc::parameter_t pg = m.solution_p(); m2->c->p_guess(pg);
#endif
            c.event("fresh_twin"); fresh = true;
        }
        Mpc& w = *m2->c;
        Plan k = make(c, q, r, t0, tf, x0, d, nullptr);
        if (!k.feasible) { c.event("infeasible_by_construction"); return; }
        c.cfg = vt::fmt("step %d [%g, %g] nl=%g eps=%g qp_max=%d max_iter=%d cond=%.3g", step, t0, tf, q.nl, eps, qmax, imax, k.cond);
        c.mixin(x0(0)); c.mixin(tf);
        load(m, k); load(w, k);
        if (r.chance(0.15)) // another guess for both
        {
            typename Mpc::traj_state_t xg; typename Mpc::traj_control_t ug; typename Mpc::dual_var_t lg; lg.setZero();
            for (int i = 0; i < xg.size(); ++i) xg(i) = (F)r.uniform(-1, 1); for (int i = 0; i < ug.size(); ++i) ug(i) = (F)r.uniform(-1, 1);
            const bool dual = r.chance(0.5); for (Mpc* a : {&m, &w}) { a->x_guess(xg); a->u_guess(ug); if (dual) a->lam_guess(lg); }
            c.event("guess");
        }
        m.settings().max_iter = imax; w.settings().max_iter = imax; m.solver().tr = w.solver().tr = Trace();
        m.solve(); w.solve();
        if (m.solver().tr.runaway) { c.event("runaway"); c.check(!(q.convex && k.cond < 100 && qmax > 1000 && imax > 10 && !SINGLE), "well-posed-problem-diverged"); return; }
        // sparse matrices filled for the first time and in place round differently: from a new twin on, agreement is up to rounding
        if (O_SP && step && fresh) rounded = true;
        const L dx = (m.solver().primal_solution() - w.solver().primal_solution()).template cast<L>().norm(), dl = (m.solution_dual() - w.solution_dual()).template cast<L>().norm();
        const bool path = m.info().iter == w.info().iter && m.info().qp_solver_iter == w.info().qp_solver_iter && m.info().status.value == w.info().status.value;
        const std::string how = vt::fmt("difference %Lg %Lg iterations %d %d QP %d %d", dx, dl, m.info().iter, w.info().iter, m.info().qp_solver_iter, w.info().qp_solver_iter);
        if (!rounded) { if (!c.check(path && dx == 0 && dl == 0, "twin-controllers-disagree", how)) return; }
        else if (!path) { c.event("path_flipped_by_rounding"); ++flips; }
        else if (m.info().iter <= 10 && m.info().status.value == sqp_status_t::SOLVED && m.solver().tr.qp_solved && k.cond < 1000) { c.event("twin_up_to_rounding"); if (!c.check(dx <= 1e-5L * (1 + m.solver().primal_solution().template cast<L>().norm()), "twin-controllers-far-apart", how)) return; }
        const bool must = q.convex && k.cond < 100 && qmax > 1000 && imax > 10 && !SINGLE;
        if (!judge(c, m, q, k, must, step == 0)) return;
        if (!path && !judge(c, w, q, k, must, false)) return;
        if (m.info().status.value != sqp_status_t::SOLVED && (m.solution_x().template lpNorm<Eigen::Infinity>() > 20)) return;
        // the plant moves: the predicted state a little later, disturbed
        const double dt = (tf - t0) * r.uniform(0.05, 0.4); const typename Mpc::state_t nx = m.solution_x_at((F)(t0 + dt));
        for (int i = 0; i < O_X; ++i) x0(i) = rd(std::max(-2.0, std::min(2.0, (double)nx(i) + (r.chance(0.5) ? 0 : r.uniform(-0.2, 0.2)))));
        if (r.chance(0.5)) { t0 = rd(t0 + dt); tf = rd(tf + dt); m.set_time_limits((F)t0, (F)tf); w.set_time_limits((F)t0, (F)tf); c.event("horizon_shifted"); }
    }
    if (flips) c.event("runs_with_flips");
    c.event("full_run");
}
vt::Reg reg("loop_" OCP_NAME, &body, 220, 15000);
}
