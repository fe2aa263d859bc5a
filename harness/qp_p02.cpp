// On convex QPs with a known optimum the solvers must terminate SOLVED and land on it, for every documented setting.
#include "qp.hpp"
using namespace qpt;

static void drive(vt::Case& c, const Variant& v)
{
    vt::Rng& r = c.rng;
    const std::string& nm = v.name;
    GenOpt o; o.min_sigma = 0.2;
    o.mu = r.uniform(0.3, 1); o.L = o.mu * r.logu(1, 30);
    o.density = r.uniform(0.4, 1); o.hkind = r.range(0, 2);
    o.scale = r.logu(0.3, 5); o.mult = r.logu(0.2, 5);
    o.p_inf = r.uniform(0, 0.6); o.p_eq = r.uniform(0, 0.4); o.p_act = r.uniform(0, 0.5); o.p_boxeq = r.chance(0.3) ? 0.2 : 0.0;
    o.loose_value = r.chance(0.5) ? INF : 1e15;
    Sett s;
    const int cls = r.range(0, 5);   // 0 defaults, 1 alpha, 2 adaptive rho, 3 rho, 4 all, 5 loose
    if (cls == 1 || cls == 4) s.alpha = r.uniform(0.6, 1.85);
    if ((cls == 2 || cls == 4) && !v.flt) { s.adapt = true; s.tol = r.uniform(2, 10); s.interval = r.chance(0.5) ? 25 : r.range(10, 80); }
    if (cls == 3 || cls == 4) { s.rho = r.logu(0.03, 3); s.sigma = r.logu(1e-6, 1e-3); }
    s.check = r.chance(0.5) ? 25 : r.range(1, 50);
    s.eps_abs = v.flt ? 2e-3 : (cls == 5 ? 1e-3 : r.logu(1e-8, 1e-5));
    s.eps_rel = v.flt ? 1e-3 : (cls == 5 ? 1e-3 : (r.chance(0.5) ? 0 : s.eps_abs));
    if (s.adapt) s.eps_abs = std::max(s.eps_abs, 1e-5); // rho may grow to 1e6 (1e9 on equalities): rounding floor of the dual residual
    s.max_iter = 200000;
    std::unique_ptr<IQP> q = v.make(r.chance(0.5) ? 0 : 0xff);
    q->apply(s);
    const int rounds = r.range(1, 2);
    for (int k = 0; k < rounds; ++k)
    {
        Prob p = planted(r, v.n, v.m, o);
        if (v.flt) { o.loose_value = 1e15; round_float(p); }
        const int start = r.range(0, 2); // cold, arbitrary guess, the optimum itself
        VectorXd xg(v.n), yg(v.n + v.m);
        for (int i = 0; i < v.n; ++i) xg(i) = 3 * r.normal();
        for (int i = 0; i < v.n + v.m; ++i) yg(i) = r.normal();
        if (start == 2) { xg = p.xs; yg.head(v.m) = p.ya; yg.tail(v.n) = p.yb; }
        c.cfg = nm + vt::fmt(" class=%d start=%d ", cls, start) + s.str();
        mix(c, p); c.nontrivial();
        Res res = start ? q->solve(p, &xg, &yg) : q->solve(p);
        c.event(vt::fmt("class%d", cls)); c.event(vt::fmt("start%d", start)); c.event("cases." + nm);
        c.maximum("iterations." + vt::fmt("class%d", cls), res.iter);
        if (!c.check(res.st == ST_SOLVED, nm + "/not-solved", vt::fmt("status %d after %d iterations, res %.3g %.3g", res.st, res.iter, res.rp, res.rd))) continue;
        Cert ct = certificate(c, nm, p, res, s.eps_abs, s.eps_rel, v.flt ? 1.2e-7 : 2.3e-16);
        if (!ct.finite) continue;
        const double ueps = v.flt ? 1.2e-7 : 2.3e-16;
        // the rounded float data is optimal at a slightly different point
        const double extra = v.flt ? 1e-3 * (1 + o.scale) : 1e-9 * (1 + o.scale);
        const double d = (res.x - p.xs).norm(), b = distance_bound(p, res, ct, 1) + extra + 1e3 * ueps;
        c.maximum("distance/bound", d / b);
        c.le(d, b, nm + "/optimum", "distance to the known optimum");
        if (start == 2 && !v.flt && cls != 5 && !s.adapt) c.le(res.iter, 400 + s.check, nm + "/warm", "iterations when started at the optimum");
    }
}
VT_FAMILY(qp_converges, 6000, 300000) { drive(c, variants()[c.idx % variants().size()]); }

// PSD / LP with a known optimal value: the objective must match
VT_FAMILY(qp_psd_value, 1500, 60000)
{
    const Variant& v = variants()[c.idx % variants().size()];
    if (v.flt) return;
    vt::Rng& r = c.rng;
    GenOpt o; o.mult = r.uniform(0.3, 2); o.p_inf = 0; o.p_loose = 0; o.scale = 1; o.min_sigma = 0.2;
    Prob p = planted(r, v.n, v.m, o);
    const int rank = r.range(0, v.n - 1);
    p.H.setZero();
    for (int k = 0; k < rank; ++k) { VectorXd u(v.n); for (int i = 0; i < v.n; ++i) u(i) = r.normal(); p.H += u * u.transpose() / u.squaredNorm(); }
    p.h = -(p.H * p.xs + p.A.transpose() * p.ya + p.yb);
    Sett s; s.adapt = r.chance(0.3); s.eps_abs = s.adapt ? 1e-5 : 1e-6; s.eps_rel = 0; s.max_iter = 300000; s.alpha = r.chance(0.5) ? 1 : r.uniform(0.8, 1.7);
    c.cfg = v.name + vt::fmt(" rank=%d ", rank) + s.str();
    std::unique_ptr<IQP> q = v.make(0); q->apply(s);
    Res res = q->solve(p);
    mix(c, p); c.nontrivial();
    c.maximum("iterations", res.iter);
    if (!c.check(res.st == ST_SOLVED, v.name + "/psd-not-solved", vt::fmt("status %d after %d iterations, res %.3g %.3g", res.st, res.iter, res.rp, res.rd))) return;
    Cert ct = certificate(c, v.name, p, res, s.eps_abs, s.eps_rel, 2.3e-16);
    if (!ct.finite) return;
    const double f = 0.5 * res.x.dot(p.H * res.x) + p.h.dot(res.x), fs = 0.5 * p.xs.dot(p.H * p.xs) + p.h.dot(p.xs);
    const double width = (res.x - p.xs).cwiseAbs().sum();
    const double tol = ct.ed * width + ct.ep * (p.ya.cwiseAbs().sum() + p.yb.cwiseAbs().sum() + res.y.cwiseAbs().sum()) + 1e-9;
    c.near(f, fs, tol, v.name + "/value", "objective vs known optimal value");
}

// the optimum with its multipliers is a fixed point whatever their size: the first termination check must accept it
VT_FAMILY(qp_warm_optimum, 3000, 100000)
{
    const Variant& v = variants()[c.idx % variants().size()];
    if (v.flt) return;
    vt::Rng& r = c.rng;
    GenOpt o; o.min_sigma = 0.2; o.mu = r.uniform(0.3, 1); o.L = o.mu * r.logu(1, 30); o.density = r.uniform(0.4, 1); o.hkind = r.range(0, 2);
    o.scale = r.logu(0.3, 100); o.mult = r.logu(0.2, 1e5); o.p_inf = r.uniform(0, 0.6); o.p_eq = r.uniform(0, 0.4); o.p_act = r.uniform(0, 0.5); o.p_boxeq = r.chance(0.3) ? 0.2 : 0.0; o.loose_value = r.chance(0.5) ? INF : 1e15;
    Sett s; s.alpha = r.chance(0.5) ? 1 : r.uniform(0.6, 1.85); s.rho = r.logu(0.03, 3); s.sigma = r.logu(1e-6, 1e-3); s.check = r.range(1, 10); s.eps_abs = 1e-6; s.eps_rel = 1e-7; s.max_iter = 1000;
    std::unique_ptr<IQP> q = v.make(r.chance(0.5) ? 0 : 0xff); q->apply(s);
    for (int k = 0; k < 2; ++k)
    {
        Prob p = planted(r, v.n, v.m, o);
        VectorXd xg = p.xs, yg(v.n + v.m); yg.head(v.m) = p.ya; yg.tail(v.n) = p.yb;
        c.cfg = v.name + vt::fmt(" round=%d scale=%.2g mult=%.2g ", k, o.scale, o.mult) + s.str(); mix(c, p); c.nontrivial();
        if (r.chance(0.3)) { VectorXd x0 = 3 * xg, y0 = -yg; q->solve(p, &x0, &y0); c.event("used_before"); } // something else in between
        Res res = q->solve(p, &xg, &yg);
        const double big = 1 + xg.cwiseAbs().maxCoeff() + yg.cwiseAbs().maxCoeff(), w = (res.x - xg).cwiseAbs().maxCoeff();
        c.maximum("drift", w / big); c.event(o.mult > 1e3 ? "large_multipliers" : "multipliers");
        c.check(res.st == ST_SOLVED && res.iter <= s.check, v.name + "/warm-optimum-not-accepted", vt::fmt("status %d after %d iterations, check every %d", res.st, res.iter, s.check));
        c.le(w, 1e-6 * big, v.name + "/warm-optimum-left", "distance from the optimum");
    }
}
