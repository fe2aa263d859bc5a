// The linear algebra back end, the storage layout and pattern reuse are implementation choices: they must not change the answer.
#include "qp.hpp"
using namespace qpt;

static double big(const Res& r) { return 1 + nrm(r.x) + nrm(r.y); }
static const Variant* find(const std::string& prefix, int n, int m)
{
    for (auto& v : variants()) if (v.n == n && v.m == m && v.name.compare(0, prefix.size(), prefix) == 0) return &v;
    return nullptr;
}
static MatrixXd more_pattern(vt::Rng& r, const MatrixXd& m, double p)
{ // superset of the natural pattern: stored zeros
    MatrixXd q = m;
    for (int j = 0; j < m.cols(); ++j) for (int i = 0; i < m.rows(); ++i) { q(i, j) = m(i, j) != 0 || r.chance(p); }
    return q;
}
static Prob some(vt::Case& c, int n, int m, bool spd)
{
    if (!spd) return random_problem(c, n, m);
    GenOpt o; o.density = c.rng.uniform(0.2, 1); o.hkind = c.rng.range(0, 2); o.mult = 1; o.p_boxeq = 0.1;
    return planted(c.rng, n, m, o);
}
// fixed number of iterations, no termination: iterate by iterate comparison
static void settings(vt::Case& c, Sett& s)
{
    vt::Rng& r = c.rng;
    s.rho = r.logu(0.03, 3); s.sigma = r.logu(1e-6, 1e-3); s.alpha = r.chance(0.4) ? 1 : r.uniform(0.5, 1.8);
    s.eps_abs = s.eps_rel = 0; s.check = r.range(1, 10); s.max_iter = r.range(1, 60);
    s.adapt = r.chance(0.3); s.interval = r.range(4, 15); s.tol = r.uniform(2, 8);
}
static void same(vt::Case& c, const std::string& key, const Res& a, const Res& b, double tol)
{
    c.check(a.st == b.st && a.iter == b.iter, key + "/status", vt::fmt("status %d/%d iterations %d/%d", a.st, b.st, a.iter, b.iter));
    c.nearm(a.x, b.x, tol * big(b), key + "/x", "primal");
    c.nearm(a.y, b.y, tol * big(b), key + "/y", "dual");
}
static const char* fams[] = {"ADMM<", "BOX<"};
static const int dims[][2] = {{4, 2}, {5, 4}};

VT_FAMILY(dense_vs_sparse, 4000, 200000)
{
    vt::Rng& r = c.rng;
    const int f = c.idx % 2, d = (c.idx / 2) % 2;
    const Variant *a = find(std::string("D") + fams[f], dims[d][0], dims[d][1]), *b = find(std::string("S") + fams[f], dims[d][0], dims[d][1]);
    if (!a || !b) { c.check(false, "missing-variant"); return; }
    Sett s; settings(c, s);
    const bool spd = r.chance(0.6);
    Prob p = some(c, a->n, a->m, spd);
    if (!spd) s.adapt = false; // rho then follows the residuals of a diverging or degenerate run
    const double w = std::max(1.0, p.H.cwiseAbs().maxCoeff());
    std::unique_ptr<IQP> qa = a->make(0), qb = b->make(0xff);
    qa->apply(s); qb->apply(s);
    VectorXd xg(a->n), yg(a->n + a->m);
    for (int i = 0; i < a->n; ++i) xg(i) = r.normal();
    for (int i = 0; i < a->n + a->m; ++i) yg(i) = r.normal();
    const bool warm = r.chance(0.5);
    c.cfg = b->name + vt::fmt(" warm=%d ", (int)warm) + s.str();
    Res ra = warm ? qa->solve(p, &xg, &yg) : qa->solve(p);
    // several storage layouts of the same data
    Prob p2 = p;
    MatrixXd natH = p.H; const int lay = r.range(0, 3);
    if (lay == 0) { natH.diagonal().setOnes(); p2.patH = natH; p2.patA = p.A; }
    else if (lay == 1) { p2.patH = p.H; p2.patA = p.A; }                      // zero diagonal entries not stored
    else if (lay == 2) { p2.patH = more_pattern(r, p.H, 0.4); p2.patA = more_pattern(r, p.A, 0.4); }
    else { p2.patH = MatrixXd::Ones(p.n, p.n); p2.patA = MatrixXd::Ones(p.m, p.n); }
    c.event(vt::fmt("layout%d", lay));
    Res rb = warm ? qb->solve(p2, &xg, &yg) : qb->solve(p2);
    if (s.adapt && (ra.rd < 1e-7 || ra.rp < 1e-7)) { c.event("converged_adaptive_skipped"); return; } // rho then follows rounding noise
    c.nontrivial(); mix(c, p);
    same(c, b->name, rb, ra, spd ? 1e-6 : 1e-3 * w); // without curvature the KKT matrix has condition up to 1e12
}

static void reuse(vt::Case& c, const Variant& v, double tol)
{
    vt::Rng& r = c.rng;
    Sett s; settings(c, s);
    if (v.cg) { s.adapt = false; s.max_iter = r.range(1, 8); s.rho = r.uniform(0.3, 1); s.sigma = 1e-3; s.alpha = 1; }
    std::unique_ptr<IQP> q = v.make(0xff);
    q->apply(s);
    Prob p = some(c, v.n, v.m, true);
    const int lay = r.range(0, 3);
    MatrixXd pH = p.H, pA = more_pattern(r, p.A, 0.2);
    if (lay == 0) pH.diagonal().setOnes();
    else if (lay == 1) { pH = more_pattern(r, p.H, 0.3); pH.diagonal().setOnes(); }
    else if (lay == 2) { // a variable without curvature whose diagonal entry is not stored
        const int k = r.range(0, v.n - 1); for (int i = 0; i < v.n; ++i) pH(i, k) = pH(k, i) = 0; }
    auto fit = [&](Prob& z) { // impose the pattern
        for (int j = 0; j < v.n; ++j) { for (int i = 0; i < v.n; ++i) if (pH(i, j) == 0 || pH(j, i) == 0) z.H(i, j) = z.H(j, i) = 0; for (int i = 0; i < v.m; ++i) if (pA(i, j) == 0) z.A(i, j) = 0; }
        MatrixXd sym = pH + pH.transpose(); for (int j = 0; j < v.n; ++j) for (int i = 0; i < v.n; ++i) sym(i, j) = sym(i, j) != 0;
        z.patH = sym; z.patA = pA;
    };
    fit(p);
    c.event(vt::fmt("layout%d", lay));
    q->solve(p);
    s.reuse = true; q->apply(s);
    const int rounds = r.range(1, 4);
    for (int k = 0; k < rounds; ++k)
    {
        Prob n = some(c, v.n, v.m, true);
        fit(n);
        if (r.chance(0.3)) { s.rho = r.logu(0.05, 2); q->apply(s); }
        c.cfg = v.name + vt::fmt(" layout=%d round=%d ", lay, k) + s.str();
        Res a = q->solve(n);
        Sett t = s; t.reuse = false;
        std::unique_ptr<IQP> f = v.make(0); f->apply(t);
        Res b = f->solve(n);
        if (s.adapt && (b.rd < 1e-7 || b.rp < 1e-7)) { c.event("converged_adaptive_skipped"); continue; }
        c.nontrivial(); mix(c, n); c.event("reuses");
        if (s.adapt && !(big(b) < 100)) { c.event("diverging_adaptive_skipped"); continue; } // the imposed pattern made it infeasible
        if (v.cg && !(b.x.allFinite() && big(b) < 1e3)) { c.event("cg_breakdown_skipped"); continue; }
        same(c, v.name + "/reuse", a, b, tol);
    }
}
VT_FAMILY(reuse_pattern, 3000, 150000)
{
    std::vector<const Variant*> s;
    for (auto& v : variants()) if (v.sparse && !v.cg) s.push_back(&v);
    reuse(c, *s[c.idx % s.size()], 1e-7);
}
VT_FAMILY(reuse_pattern_cg, 1000, 40000)
{
    std::vector<const Variant*> s;
    for (auto& v : variants()) if (v.sparse && v.cg) s.push_back(&v);
    reuse(c, *s[c.idx % s.size()], 1e-6);
}
// iterative back end against the direct one, while its systems are well conditioned
VT_FAMILY(direct_vs_cg, 1000, 40000)
{
    vt::Rng& r = c.rng;
    const char* pf[] = {"DADMM", "DBOX", "SADMM", "SBOX"};
    const std::string nm = pf[c.idx % 4];
    const Variant *a = find(nm + "<", 4, 2), *b = find(nm + "_CG<", 4, 2);
    if (!a || !b) return;
    GenOpt o; o.mu = 1; o.L = 4; o.p_loose = 0; o.p_inf = 0; o.p_eq = 0; o.p_boxeq = 0; o.p_act = 0.4;
    Prob p = planted(r, 4, 2, o);
    Sett s; s.rho = r.uniform(0.4, 1.5); s.sigma = 1e-3; s.alpha = r.uniform(0.8, 1.5); s.eps_abs = s.eps_rel = 0; s.max_iter = r.range(1, 12); s.check = 1;
    c.cfg = b->name + " " + s.str();
    std::unique_ptr<IQP> qa = a->make(0), qb = b->make(0); qa->apply(s); qb->apply(s);
    Res ra = qa->solve(p), rb = qb->solve(p);
    c.nontrivial(); mix(c, p);
    c.maximum("cg_difference", (ra.x - rb.x).norm() / big(ra));
    same(c, b->name, rb, ra, 1e-5);
}
