// Whatever a QP solver calls SOLVED is an optimality certificate for the data it was given.
#include "qp.hpp"
using namespace qpt;

static void drive(vt::Case& c, const Variant& v)
{
    std::unique_ptr<IQP> q = v.make(c.rng.chance(0.5) ? 0 : 0xff);
    const std::string& nm = v.name;
    Sett s;
    random_settings(c.rng, s, v.flt);
    if (v.cg) s.max_iter = std::min(s.max_iter, 300);
    q->apply(s);
    const int rounds = c.rng.range(1, 3);
    for (int k = 0; k < rounds; ++k)
    {
        Prob p = random_problem(c, v.n, v.m, v.flt);
        const bool warm = c.rng.chance(0.4);
        VectorXd xg(v.n), yg(v.n + v.m);
        for (int i = 0; i < v.n; ++i) xg(i) = c.rng.normal();
        for (int i = 0; i < v.n + v.m; ++i) yg(i) = c.rng.normal();
        c.cfg = nm + vt::fmt(" round=%d warm=%d ", k, (int)warm) + s.str();
        mix(c, p);
        Res r = warm ? q->solve(p, &xg, &yg) : q->solve(p);
        c.event("solves");
        c.check(r.st == ST_SOLVED || r.st == ST_MAX_ITER, nm + "/status", vt::fmt("status %d", r.st));
        c.check(r.st == r.info_st, nm + "/status-info", "returned status differs from info().status");
        if (r.st == ST_SOLVED)
        {
            c.event("solved"); c.event("solved." + nm); c.nontrivial();
            certificate(c, nm, p, r, s.eps_abs, s.eps_rel, v.flt ? 1.2e-7 : 2.3e-16);
            c.check(r.iter >= 1 && r.iter <= s.max_iter, nm + "/iter", vt::fmt("iter %d max_iter %d", r.iter, s.max_iter));
            c.check(r.iter % s.check == 0, nm + "/iter-check", vt::fmt("iter %d", r.iter));
        }
        else
        {
            c.event("not_solved");
            c.check(r.iter >= s.max_iter, nm + "/early-stop", vt::fmt("gave up at %d of %d", r.iter, s.max_iter));
        }
    }
}
VT_FAMILY(qp_certificate, 24000, 1500000)
{
    const Variant& v = variants()[c.idx % variants().size()];
    drive(c, v);
}
