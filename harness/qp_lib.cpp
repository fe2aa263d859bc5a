#include "qp.hpp"
namespace qpt {
std::string Sett::str() const
{
    return vt::fmt("rho=%.3g sigma=%.3g alpha=%.3g chk=%d adapt=%d tol=%.3g int=%d eps=%.2g/%.2g max=%d reuse=%d", rho, sigma, alpha, check, (int)adapt, tol, interval, eps_abs, eps_rel, max_iter, (int)reuse);
}
MatrixXd random_orth(vt::Rng& r, int n)
{
    MatrixXd G(n, n);
    for (int j = 0; j < n; ++j) for (int i = 0; i < n; ++i) G(i, j) = r.normal();
    Eigen::HouseholderQR<MatrixXd> qr(G);
    return qr.householderQ() * MatrixXd::Identity(n, n);
}
MatrixXd random_spd(vt::Rng& r, int n, double mu, double L)
{
    MatrixXd Q = random_orth(r, n);
    VectorXd d(n);
    for (int i = 0; i < n; ++i) d(i) = r.logu(mu, L);
    MatrixXd H = Q * d.asDiagonal() * Q.transpose();
    MatrixXd Ht = H.transpose();
    return 0.5 * (H + Ht);
}
static Prob planted_once(vt::Rng& r, int n, int m, const GenOpt& o)
{
    Prob p;
    p.n = n; p.m = m; p.planted = true; p.mu = o.mu; p.L = o.L;
    if (o.hkind == 1)
    {
        p.H = MatrixXd::Zero(n, n);
        for (int i = 0; i < n; ++i) p.H(i, i) = r.logu(o.mu, o.L);
    }
    else if (o.hkind == 2)
    { // diagonally dominant, sparse: eigenvalues in [mu, L]
        p.H = MatrixXd::Zero(n, n);
        for (int i = 0; i < n; ++i) p.H(i, i) = 0.5 * (o.mu + o.L);
        for (int i = 0; i + 1 < n; ++i) if (r.chance(0.6)) { double v = 0.25 * (o.L - o.mu) * r.uniform(-1, 1); p.H(i, i + 1) = p.H(i + 1, i) = v; }
    }
    else p.H = random_spd(r, n, o.mu, o.L);
    p.A = MatrixXd::Zero(m, n);
    for (int i = 0; i < m; ++i)
    {
        for (int j = 0; j < n; ++j) if (r.chance(o.density)) p.A(i, j) = r.uniform(-1, 1);
        if (p.A.row(i).cwiseAbs().maxCoeff() < 0.3) p.A(i, r.range(0, n - 1)) = r.sign() * r.uniform(0.5, 1);
    }
    p.xs = VectorXd(n);
    for (int i = 0; i < n; ++i) p.xs(i) = o.scale * r.uniform(-1, 1);
    p.Al = VectorXd(m); p.Au = VectorXd(m); p.ya = VectorXd::Zero(m);
    p.xl = VectorXd(n); p.xu = VectorXd(n); p.yb = VectorXd::Zero(n);
    int nact = 0;
    auto place = [&](double v, double& lo, double& hi, double& y, double peq) {
        const double s = o.scale;
        lo = v - s * r.uniform(0.1, 2); hi = v + s * r.uniform(0.1, 2);
        const double u = r.unit();
        const bool room = nact < n - 1;
        if (u < peq && room) { lo = hi = v; y = o.mult * r.uniform(-1, 1); ++nact; }
        else if (u < peq + o.p_act && room)
        {
            ++nact;
            if (r.chance(0.5)) { hi = v; y = o.mult * r.uniform(0.05, 1); if (r.chance(o.p_inf)) lo = -o.loose_value; }
            else { lo = v; y = -o.mult * r.uniform(0.05, 1); if (r.chance(o.p_inf)) hi = o.loose_value; }
        }
        else if (u < peq + o.p_act + o.p_loose) { lo = -o.loose_value; hi = o.loose_value; }
        else if (r.chance(o.p_inf)) { if (r.chance(0.5)) lo = -o.loose_value; else hi = o.loose_value; }
    };
    VectorXd Ax = p.A * p.xs;
    for (int i = 0; i < m; ++i) place(Ax(i), p.Al(i), p.Au(i), p.ya(i), o.p_eq);
    for (int i = 0; i < n; ++i) place(p.xs(i), p.xl(i), p.xu(i), p.yb(i), o.p_boxeq);
    p.h = -(p.H * p.xs + p.A.transpose() * p.ya + p.yb);
    return p;
}
Prob planted(vt::Rng& r, int n, int m, const GenOpt& o)
{
    for (int k = 0; k < 200; ++k)
    {
        Prob p = planted_once(r, n, m, o);
        if (o.min_sigma <= 0) return p;
        MatrixXd N(0, n);
        auto add = [&](const Eigen::RowVectorXd& a) { N.conservativeResize(N.rows() + 1, n); N.row(N.rows() - 1) = a; };
        const VectorXd Ax = p.A * p.xs;
        for (int i = 0; i < m; ++i) if (std::min(Ax(i) - p.Al(i), p.Au(i) - Ax(i)) < 1e-9) add(p.A.row(i));
        for (int i = 0; i < n; ++i) if (std::min(p.xs(i) - p.xl(i), p.xu(i) - p.xs(i)) < 1e-9) add(Eigen::RowVectorXd::Unit(n, i));
        if (N.rows() == 0) return p;
        if (N.rows() <= n && Eigen::JacobiSVD<MatrixXd>(N).singularValues()(N.rows() - 1) >= o.min_sigma) return p;
    }
    GenOpt q = o; q.p_eq = q.p_act = q.p_boxeq = 0;
    return planted_once(r, n, m, q);
}
Prob random_problem(vt::Case& c, int n, int m, bool flt)
{
    vt::Rng& r = c.rng;
    GenOpt o;
    int kind = r.range(0, 7);
    if (flt && kind == 5) kind = 0; // rank deficient in float: beyond the factorisation
    c.event(vt::fmt("kind%d", kind));
    o.scale = r.logu(0.1, 20); o.mult = r.logu(0.1, 10); o.density = r.uniform(0.3, 1);
    o.mu = r.logu(1e-2, 1); o.L = o.mu * r.logu(1, 100);
    o.loose_value = r.chance(0.5) ? INF : 1e20;
    o.hkind = r.range(0, 2);
    Prob p = planted(r, n, m, o);
    if (kind == 1)
    { // positive semidefinite
        VectorXd v(n);
        for (int i = 0; i < n; ++i) v(i) = r.normal();
        p.H = v * v.transpose();
        if (flt) p.H.diagonal().array() += 1e-3 * v.squaredNorm(); // stays semidefinite after rounding to float
        p.h = -(p.H * p.xs + p.A.transpose() * p.ya + p.yb);
    }
    else if (kind == 2) { p.H.setZero(); if (flt) p.H.diagonal().setConstant(0.1); p.h = -(p.H * p.xs + p.A.transpose() * p.ya + p.yb); } // LP
    else if (kind == 3)
    { // unrelated bounds: may well be infeasible
        for (int i = 0; i < m; ++i) { double a = r.uniform(-3, 3), w = r.uniform(0, 2); p.Al(i) = a; p.Au(i) = a + (r.chance(0.3) ? 0 : w); }
        for (int i = 0; i < n; ++i) { double a = r.uniform(-3, 3), w = r.uniform(0, 3); p.xl(i) = a; p.xu(i) = a + w; }
    }
    else if (kind == 4) { for (int i = 0; i < n; ++i) p.h(i) = r.normal() * o.scale; } // not at the planted point
    else if (kind == 5 && m > 1) { p.A.row(m - 1) = p.A.row(0); p.Al(m - 1) = p.Al(0); p.Au(m - 1) = p.Au(0); } // dependent rows
    else if (kind == 6)
    { // badly scaled
        double s = r.logu(1e-3, 1e3); p.H *= s; p.h *= s;
        if (m > 0) { double t = r.logu(1e-2, 1e2); p.A.row(0) *= t; p.Al(0) *= t; p.Au(0) *= t; }
    }
    if (flt) round_float(p);
    p.planted = kind == 0 || kind == 6 || kind == 7;
    return p;
}
void random_settings(vt::Rng& r, Sett& s, bool flt)
{
    s.rho = r.logu(1e-2, 10);
    s.sigma = r.chance(0.5) ? 1e-6 : r.logu(1e-6, 1e-2);
    s.alpha = r.chance(0.4) ? 1.0 : r.uniform(0.3, 1.9);
    s.check = r.chance(0.5) ? 25 : r.range(1, 60);
    s.adapt = r.chance(0.5);
    s.tol = r.chance(0.5) ? 5 : r.uniform(1.5, 10);
    s.interval = r.chance(0.5) ? 25 : r.range(5, 60);
    s.eps_abs = flt ? r.logu(1e-3, 1e-1) : r.logu(1e-7, 1e-1);
    s.eps_rel = r.chance(0.2) ? 0.0 : (flt ? r.logu(1e-3, 1e-1) : r.logu(1e-7, 1e-1));
    s.max_iter = r.chance(0.3) ? r.range(1, 100) : r.range(200, 1500);
}
void round_float(Prob& p)
{
    auto f = [](MatrixXd& m) { m = m.cast<float>().cast<double>().eval(); };
    auto g = [](VectorXd& m) { m = m.cast<float>().cast<double>().eval(); };
    f(p.H); f(p.A); g(p.h); g(p.Al); g(p.Au); g(p.xl); g(p.xu);
}
void mix(vt::Case& c, const Prob& p) { c.mixm(p.H); c.mixm(p.h); c.mixm(p.A); c.mixm(p.Al); c.mixm(p.Au); c.mixm(p.xl); c.mixm(p.xu); }
double nrm(const VectorXd& v) { return v.size() ? v.cwiseAbs().maxCoeff() : 0.0; }
std::string vec(const VectorXd& v) { std::string s; for (int i = 0; i < v.size(); ++i) s += vt::fmt("%s%.4g", i ? "," : "", v(i)); return "[" + s + "]"; }

// what "SOLVED" promises, recomputed from the original data only
Cert certificate(vt::Case& c, const std::string& key, const Prob& p, const Res& r, double eps_abs, double eps_rel, double ueps)
{
    Cert ct;
    if (!r.x.allFinite() || !r.y.allFinite()) { c.check(false, key + "/nonfinite", "x=" + vec(r.x) + " y=" + vec(r.y)); ct.finite = false; return ct; }
    VectorXd Ax = p.A * r.x, Hx = p.H * r.x;
    VectorXd ya = r.y.head(p.m), yb = r.y.tail(p.n);
    VectorXd Aty = p.A.transpose() * ya;
    const double sc_p = std::max(nrm(Ax), nrm(r.x)), sc_d = std::max(std::max(nrm(Hx), nrm(Aty)), std::max(nrm(p.h), nrm(yb)));
    // rounding of the solver's own residual evaluation
    const double rnd_p = 8 * (p.n + 2) * ueps * ((p.m ? p.A.cwiseAbs().rowwise().sum().maxCoeff() : 0) + 1) * (nrm(r.x) + 1e-30);
    const double rnd_d = 8 * (p.n + p.m + 2) * ueps * (p.H.cwiseAbs().rowwise().sum().maxCoeff() * nrm(r.x) + nrm(p.h) + nrm(yb) +
                         (p.m ? p.A.cwiseAbs().colwise().sum().maxCoeff() * nrm(ya) : 0));
    ct.ep = (eps_abs + eps_rel * sc_p) / (1 - eps_rel) * (1 + 1e-6) + rnd_p;
    ct.ed = (eps_abs + eps_rel * sc_d) * (1 + 1e-6) + rnd_d;
    for (int i = 0; i < p.m; ++i)
    {
        c.le(p.Al(i) - Ax(i), ct.ep, key + "/primal", "lower constraint bound violated by");
        c.le(Ax(i) - p.Au(i), ct.ep, key + "/primal", "upper constraint bound violated by");
    }
    for (int i = 0; i < p.n; ++i)
    {
        c.le(p.xl(i) - r.x(i), ct.ep, key + "/box", "lower box bound violated by");
        c.le(r.x(i) - p.xu(i), ct.ep, key + "/box", "upper box bound violated by");
    }
    c.le(nrm(Hx + p.h + Aty + yb), ct.ed, key + "/stationarity", "|Hx+h+A'y+ybox|");
    const double ty = (ueps < 1e-10 ? 1e-6 : 2e-2) * (1 + nrm(r.y));
    for (int i = 0; i < p.m; ++i)
    {
        if (ya(i) > ty) c.check(p.Au(i) - Ax(i) <= ct.ep, key + "/complementarity", vt::fmt("y_A[%d]=%g but slack to upper bound %g (tol %g)", i, ya(i), p.Au(i) - Ax(i), ct.ep));
        if (ya(i) < -ty) c.check(Ax(i) - p.Al(i) <= ct.ep, key + "/complementarity", vt::fmt("y_A[%d]=%g but slack to lower bound %g (tol %g)", i, ya(i), Ax(i) - p.Al(i), ct.ep));
    }
    for (int i = 0; i < p.n; ++i)
    {
        if (yb(i) > ty) c.check(p.xu(i) - r.x(i) <= ct.ep, key + "/complementarity", vt::fmt("y_box[%d]=%g but slack to upper bound %g (tol %g)", i, yb(i), p.xu(i) - r.x(i), ct.ep));
        if (yb(i) < -ty) c.check(r.x(i) - p.xl(i) <= ct.ep, key + "/complementarity", vt::fmt("y_box[%d]=%g but slack to lower bound %g (tol %g)", i, yb(i), r.x(i) - p.xl(i), ct.ep));
    }
    return ct;
}
// distance to the planted optimum implied by an approximate KKT point of a strongly convex QP
double distance_bound(const Prob& p, const Res& r, const Cert& ct, double slack)
{
    const double y1 = r.y.cwiseAbs().sum() + p.ya.cwiseAbs().sum() + p.yb.cwiseAbs().sum() + slack;
    const double b = ct.ed * std::sqrt((double)p.n), cc = ct.ep * y1;   // mu d^2 <= ed*sqrt(n) d + ep*y1
    return (b + std::sqrt(b * b + 4 * p.mu * cc)) / (2 * p.mu);
}
Eigen::SparseMatrix<double> to_sparse(const MatrixXd& m, const MatrixXd& pat)
{
    Eigen::SparseMatrix<double> s(m.rows(), m.cols());
    Eigen::VectorXi nnz(m.cols());
    for (int j = 0; j < m.cols(); ++j) nnz(j) = std::max<int>(1, m.rows() ? (int)(pat.col(j).array() != 0).count() : 0);
    s.reserve(nnz);
    for (int j = 0; j < m.cols(); ++j)
        for (int i = 0; i < m.rows(); ++i)
            if (pat(i, j) != 0) s.insert(i, j) = m(i, j);
    return s;
}
} // namespace qpt
