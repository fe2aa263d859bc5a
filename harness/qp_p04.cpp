// A solve depends on nothing but its arguments and settings; it modifies none of them, and reports truthfully what it did.
#include "qp.hpp"
using namespace qpt;

static bool bits(const VectorXd& a, const VectorXd& b) { return a.size() == b.size() && (a.size() == 0 || !std::memcmp(a.data(), b.data(), a.size() * sizeof(double))); }
static void random_guess(vt::Rng& r, VectorXd& x) { for (int i = 0; i < x.size(); ++i) x(i) = r.normal(); }
static void info_checks(vt::Case& c, const std::string& nm, const Prob& p, const Sett& s, const Res& r, bool flt)
{
    c.check(r.inputs_kept, nm + "/inputs-modified", "an argument of solve() changed");
    c.check(r.st == r.info_st, nm + "/info-status", vt::fmt("%d vs %d", r.st, r.info_st));
    if (r.st == ST_SOLVED) c.check(r.iter >= 1 && r.iter <= s.max_iter && s.check > 0 && r.iter % s.check == 0, nm + "/info-iter", vt::fmt("iter %d", r.iter));
    else { c.check(r.st == ST_MAX_ITER, nm + "/info-status-kind", vt::fmt("%d", r.st)); c.check(r.iter == s.max_iter || r.iter == s.max_iter + 1, nm + "/info-iter", vt::fmt("iter %d max %d", r.iter, s.max_iter)); }
    c.check(r.rho_updates >= 1, nm + "/info-rho", "no rho update recorded");
    const bool checked = r.st == ST_SOLVED || (s.check > 0 && s.max_iter % s.check == 0) || (s.adapt && s.max_iter % s.interval == 0);
    if (checked && r.x.allFinite() && r.y.allFinite())
    { // the residuals in info() are those of the returned point
        const double u = flt ? 1.2e-7 : 2.3e-16;
        const VectorXd Ax = p.A * r.x;
        const VectorXd rd = p.H * r.x + p.h + p.A.transpose() * r.y.head(p.m) + r.y.tail(p.n);
        const double mag = (p.H.cwiseAbs() * r.x.cwiseAbs() + p.h.cwiseAbs() + p.A.cwiseAbs().transpose() * r.y.head(p.m).cwiseAbs() + r.y.tail(p.n).cwiseAbs()).maxCoeff();
        c.near(r.rd, nrm(rd), 200 * u * mag + 1e-300, nm + "/info-res-dual", "info().res_dual");
        double viol = 0;
        for (int i = 0; i < p.m; ++i) viol = std::max(viol, std::max(p.Al(i) - Ax(i), Ax(i) - p.Au(i)));
        for (int i = 0; i < p.n; ++i) viol = std::max(viol, std::max(p.xl(i) - r.x(i), r.x(i) - p.xu(i)));
        const double magp = (p.m ? (p.A.cwiseAbs() * r.x.cwiseAbs()).maxCoeff() : 0) + nrm(r.x);
        c.le(viol, r.rp + 200 * u * magp, nm + "/info-res-prim", "constraint violation above info().res_prim:");
        c.event("residuals_recomputed");
    }
}
VT_FAMILY(qp_pure_function, 6000, 250000)
{
    vt::Rng& r = c.rng;
    const Variant& v = variants()[c.idx % variants().size()];
    Sett s; random_settings(r, s, v.flt);
    s.max_iter = r.range(1, 400);
    if (r.chance(0.1)) s.check = 0; // disabled: runs to the iteration limit
    // solver A: previous life with other problems and other settings; B: fresh on zeroed memory; C: fresh on poisoned memory
    std::unique_ptr<IQP> a = v.make(0x7f), b = v.make(0), d = v.make(0xff);
    const int life = r.range(1, 4);
    const Prob pp = random_problem(c, v.n, v.m, v.flt);
    for (int k = 0; k < life; ++k)
    {
        Prob p = random_problem(c, v.n, v.m, v.flt);
        Sett t; random_settings(r, t, v.flt); t.max_iter = r.range(1, 200);
        if (r.chance(0.6))
        { // a relative of the problem to come: some of its parts differ
            if (r.chance(0.6)) { p.H = pp.H; p.patH = pp.patH; } if (r.chance(0.6)) { p.A = pp.A; p.patA = pp.patA; } if (r.chance(0.6)) p.h = pp.h;
            if (r.chance(0.6)) { p.Al = pp.Al; p.Au = pp.Au; } if (r.chance(0.6)) { p.xl = pp.xl; p.xu = pp.xu; }
            c.event("related_history");
        }
        if (r.chance(0.4)) { const Sett u = t; t = s; if (r.chance(0.5)) t.rho = u.rho; if (r.chance(0.5)) t.sigma = u.sigma; if (r.chance(0.5)) t.alpha = u.alpha; t.max_iter = r.chance(0.5) ? s.max_iter : u.max_iter; c.event("related_settings"); }
        a->apply(t);
        VectorXd xg(v.n), yg(v.n + v.m); random_guess(r, xg); random_guess(r, yg);
        Res x = r.chance(0.5) ? a->solve(p) : a->solve(p, &xg, &yg);
        info_checks(c, v.name, p, t, x, v.flt);
    }
    const Prob& p = pp;
    const bool warm = r.chance(0.4);
    VectorXd xg(v.n), yg(v.n + v.m); random_guess(r, xg); random_guess(r, yg);
    c.cfg = v.name + vt::fmt(" life=%d warm=%d ", life, (int)warm) + s.str();
    mix(c, p); c.nontrivial();
    Res R[4]; int k = 0;
    for (IQP* q : {a.get(), b.get(), d.get()}) { q->apply(s); R[k++] = warm ? q->solve(p, &xg, &yg) : q->solve(p); }
    R[3] = warm ? b->solve(p, &xg, &yg) : b->solve(p); // again, same solver
    static const char* what[] = {"used", "fresh", "poisoned", "repeated"};
    info_checks(c, v.name, p, s, R[1], v.flt);
    for (int i = 0; i < 4; ++i)
    {
        if (i == 1) continue;
        const std::string key = v.name + "/" + what[i];
        c.check(R[i].st == R[1].st && R[i].iter == R[1].iter, key + "/status", vt::fmt("status %d/%d iter %d/%d", R[i].st, R[1].st, R[i].iter, R[1].iter));
        c.check(bits(R[i].x, R[1].x), key + "/x", vec(R[i].x) + " vs " + vec(R[1].x));
        c.check(bits(R[i].y, R[1].y), key + "/y", vec(R[i].y) + " vs " + vec(R[1].y));
    }
    if (!warm)
    { // no guess means a zero guess
        xg.setZero(); yg.setZero();
        Res z = b->solve(p, &xg, &yg);
        c.check(z.st == R[1].st && z.iter == R[1].iter && bits(z.x, R[1].x), v.name + "/zero-guess", vec(z.x) + " vs " + vec(R[1].x));
    }
    if (s.check == 0) { c.event("termination_disabled"); c.check(R[1].st == ST_MAX_ITER, v.name + "/check0", "terminated although checks are disabled"); }
}
