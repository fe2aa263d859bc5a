// Scaling a QP must be a change of variables: exactly invertible, with the same solution after unscaling.
#include "qp.hpp"
#include "solvers/qp_preconditioners.hpp"
using namespace qpt;

#ifndef P_N
#define P_N 4
#define P_M 2
#define P_SP 0
#define P_S double
#endif
typedef P_S S;
static const int N = P_N, M = P_M;
typedef Eigen::Matrix<S, N, 1> V;
typedef Eigen::Matrix<S, M, 1> W;
typedef Eigen::Matrix<S, N + M, 1> Y;
#if P_SP
typedef Eigen::SparseMatrix<S> HT; typedef Eigen::SparseMatrix<S> AT;
static HT mkm(const MatrixXd& m, const MatrixXd& pat)
{
    Eigen::SparseMatrix<double> d = to_sparse(m, pat);
    HT s(m.rows(), m.cols());
    Eigen::VectorXi nnz(m.cols());
    for (int j = 0; j < m.cols(); ++j) nnz(j) = std::max(1, d.innerNonZeroPtr()[j]);
    s.reserve(nnz);
    for (int j = 0; j < m.cols(); ++j) for (Eigen::SparseMatrix<double>::InnerIterator it(d, j); it; ++it) s.insert(it.row(), j) = (S)it.value();
    return s;
}
static MatrixXd dn(const HT& s) { return MatrixXd(Eigen::MatrixXd(s.cast<double>())); }
static long stored(const HT& s) { return s.nonZeros(); }
static bool uncompressed(const HT& s) { return !s.isCompressed(); }
#else
typedef Eigen::Matrix<S, N, N> HT; typedef Eigen::Matrix<S, M, N> AT;
template <class D> static MatrixXd dn(const Eigen::MatrixBase<D>& s) { return s.template cast<double>(); }
template <class D> static long stored(const Eigen::MatrixBase<D>& s) { return 0; }
template <class D> static bool uncompressed(const Eigen::MatrixBase<D>&) { return true; }
#endif
static const double U = sizeof(S) == 4 ? 1.2e-7 : 2.3e-16;

static bool close(vt::Case& c, const MatrixXd& a, const MatrixXd& b, double rel, const std::string& key)
{ // entrywise relative comparison, infinities must stay
    for (int j = 0; j < a.cols(); ++j)
        for (int i = 0; i < a.rows(); ++i)
        {
            const double x = a(i, j), y = b(i, j);
            if (std::isinf(y) || std::isinf(x)) { if (!c.check(x == y, key, vt::fmt("(%d,%d) %g vs %g", i, j, x, y))) return false; continue; }
            if (!c.near(x, y, rel * (std::fabs(x) + std::fabs(y)) + 1e-300, key, vt::fmt("(%d,%d)", i, j).c_str())) return false;
        }
    return true;
}
struct Data { HT H; AT A; V h, l, u; W al, au; };
static Data data(const Prob& p)
{
    Data d;
#if P_SP
    MatrixXd ph = p.patH, pa = p.patA;
    if (!ph.size()) { ph = p.H; ph.diagonal().setOnes(); }
    if (!pa.size()) pa = p.A;
    d.H = mkm(p.H, ph); d.A = mkm(p.A, pa);
#else
    d.H = p.H.cast<S>(); d.A = p.A.cast<S>();
#endif
    d.h = p.h.cast<S>(); d.l = p.xl.cast<S>(); d.u = p.xu.cast<S>(); d.al = p.Al.cast<S>(); d.au = p.Au.cast<S>();
    return d;
}
static void same(vt::Case& c, const Data& a, const Data& b, double rel, const std::string& key)
{
    close(c, dn(a.H), dn(b.H), rel, key + "/H"); close(c, dn(a.A), dn(b.A), rel, key + "/A");
    close(c, a.h.template cast<double>(), b.h.template cast<double>(), rel, key + "/h");
    close(c, a.l.template cast<double>(), b.l.template cast<double>(), rel, key + "/l"); close(c, a.u.template cast<double>(), b.u.template cast<double>(), rel, key + "/u");
    close(c, a.al.template cast<double>(), b.al.template cast<double>(), rel, key + "/al"); close(c, a.au.template cast<double>(), b.au.template cast<double>(), rel, key + "/au");
}
static Prob unusual(vt::Case& c)
{
    vt::Rng& r = c.rng;
    GenOpt o; o.hkind = r.range(0, 2); o.density = r.uniform(0.3, 1); o.scale = r.logu(0.1, 10); o.mult = r.logu(0.1, 10);
    o.mu = r.logu(1e-3, 1); o.L = o.mu * r.logu(1, 1e4); o.loose_value = r.chance(0.5) ? INF : 1e20;
    Prob p = planted(r, N, M, o);
    const int kind = r.range(0, 6);
    c.event(vt::fmt("kind%d", kind));
    if (kind == 1 && M > 1) { p.A.row(r.range(0, M - 1)).setZero(); p.planted = false; }       // empty constraint row
    if (kind == 2) { const int k = r.range(0, N - 1); p.H.row(k).setZero(); p.H.col(k).setZero(); if (r.chance(0.5)) p.A.col(k).setZero(); p.planted = false; } // variable without curvature
    if (kind == 3) { p.H.setZero(); p.planted = false; }
    if (kind == 4) { p.h.setZero(); p.planted = false; if (r.chance(0.4)) p.H.setZero(); }
    if (kind == 5) { const double t = r.logu(1e-4, 1e4); p.H *= t; p.h *= t; for (int i = 0; i < M; ++i) { const double q = r.logu(1e-2, 1e2); p.A.row(i) *= q; p.Al(i) *= q; p.Au(i) *= q; } p.planted = false; }
    if (sizeof(S) == 4) round_float(p);
    if (r.chance(0.3)) { p.patH = p.H; p.patA = p.A; c.event("natural_pattern"); } // nothing stored for zero entries
    return p;
}
#define CAT2(a, b) a##b
#define CAT1(a, b) CAT2(a, b)
static void pre(vt::Case& c)
{
    vt::Rng& r = c.rng;
    Prob p = unusual(c);
    const std::string nm = vt::fmt("Ruiz<%s,%d,%d,%s>", sizeof(S) == 4 ? "float" : "double", N, M, P_SP ? "sparse" : "dense");
    Data o = data(p), d = o;
#if P_SP
    d = data(p);
#endif
    const long sh = stored(o.H), sa = stored(o.A);
    polympc::RuizEquilibration<S, N, M, P_SP> pc;
    if (r.chance(0.5)) { Prob q = unusual(c); Data z = data(q); pc.compute(z.H, z.h, z.A, z.al, z.au, z.l, z.u); } // history must not matter
    pc.compute(d.H, d.h, d.A, d.al, d.au, d.l, d.u);
    c.cfg = nm + vt::fmt(" c=%.3g D=[%.3g..%.3g]", (double)pc.c(), (double)pc.D.minCoeff(), (double)pc.D.maxCoeff());
    mix(c, p); c.nontrivial();
    const VectorXd D = pc.D.template cast<double>(), E = pc.E.template cast<double>();
    const double cc = (double)pc.c();
    bool ok = std::isfinite(cc) && cc > 0 && D.allFinite() && E.allFinite();
    for (int i = 0; i < N; ++i) ok = ok && D(i) > 0;
    for (int i = 0; i < M; ++i) ok = ok && E(i) > 0;
    if (!c.check(ok, nm + "/factors", vt::fmt("c=%g D=%s E=%s", cc, vec(D).c_str(), vec(E).c_str()))) return;
    const double rel = 200 * U;
    // what compute() produced is the documented change of variables
    close(c, dn(d.H), cc * D.asDiagonal() * dn(o.H) * D.asDiagonal(), rel, nm + "/compute/H");
    close(c, dn(d.A), E.asDiagonal() * dn(o.A) * D.asDiagonal(), rel, nm + "/compute/A");
    close(c, d.h.template cast<double>(), (cc * D.cwiseProduct(o.h.template cast<double>())), rel, nm + "/compute/h");
    close(c, d.l.template cast<double>(), o.l.template cast<double>().cwiseQuotient(D), rel, nm + "/compute/l"); close(c, d.u.template cast<double>(), o.u.template cast<double>().cwiseQuotient(D), rel, nm + "/compute/u");
    close(c, d.al.template cast<double>(), o.al.template cast<double>().cwiseProduct(E), rel, nm + "/compute/al"); close(c, d.au.template cast<double>(), o.au.template cast<double>().cwiseProduct(E), rel, nm + "/compute/au");
    c.check(uncompressed(d.H) && uncompressed(d.A), nm + "/compute/compressed", "sparse output is compressed: the QP solvers cannot take it");
    c.check(stored(d.H) == sh && stored(d.A) == sa, nm + "/compute/pattern", "sparsity pattern changed");
    // scale() applies the same factors to other data; unscale() restores
    Data e = data(p);
    pc.scale(e.H, e.h, e.A, e.al, e.au, e.l, e.u);
    same(c, e, d, rel, nm + "/scale");
    c.check(uncompressed(e.H) && uncompressed(e.A), nm + "/scale/compressed");
    Data hh = data(p); hh.H = d.H;
#if P_SP
    hh.H.uncompress();
#endif
    pc.unscale_hessian(hh.H);
    close(c, dn(hh.H), dn(o.H), rel, nm + "/unscale_hessian");
    pc.unscale(d.H, d.h, d.A, d.al, d.au, d.l, d.u);
    same(c, d, o, rel, nm + "/unscale");
    c.check(uncompressed(d.H) && uncompressed(d.A), nm + "/unscale/compressed");
    // points
    V x; Y y; for (int i = 0; i < N; ++i) x(i) = (S)r.normal(); for (int i = 0; i < N + M; ++i) y(i) = (S)r.normal();
    V x1 = x; Y y1 = y;
    pc.unscale(x1, y1);
    VectorXd ye = y.template cast<double>(); for (int i = 0; i < M; ++i) ye(i) *= E(i) / cc; for (int i = 0; i < N; ++i) ye(M + i) /= D(i) * cc;
    close(c, x1.template cast<double>(), D.cwiseProduct(x.template cast<double>()), rel, nm + "/unscale-x"); close(c, y1.template cast<double>(), ye, rel, nm + "/unscale-y");
    pc.scale(x1, y1);
    close(c, x1.template cast<double>(), x.template cast<double>(), rel, nm + "/roundtrip-x"); close(c, y1.template cast<double>(), y.template cast<double>(), rel, nm + "/roundtrip-y");
    // the scaled problem has the scaled solution
    if (p.planted && sizeof(S) == 8 && variants().size())
    {
        Prob q = p; q.H = cc * D.asDiagonal() * p.H * D.asDiagonal(); q.A = E.asDiagonal() * p.A * D.asDiagonal(); q.h = cc * D.cwiseProduct(p.h);
        q.xl = p.xl.cwiseQuotient(D); q.xu = p.xu.cwiseQuotient(D); q.Al = p.Al.cwiseProduct(E); q.Au = p.Au.cwiseProduct(E);
        std::unique_ptr<IQP> s = variants()[r.range(0, (int)variants().size() - 1)].make(0);
        Sett st; st.eps_abs = 1e-8; st.eps_rel = 0; st.max_iter = 20000; st.adapt = false; s->apply(st);
        if (s->n != N || s->m != M) return;
        Res res = s->solve(q);
        if (res.st != ST_SOLVED) { c.event("scaled_not_solved"); return; }
        V xs = res.x.cast<S>(); Y ys = res.y.cast<S>();
        pc.unscale(xs, ys);
        Res un = res; un.x = xs.template cast<double>(); un.y = ys.template cast<double>();
        const double k = std::max(1.0, std::max(D.maxCoeff(), 1 / D.minCoeff())) * std::max(1.0, 1 / cc) * std::max(1.0, 1 / E.minCoeff());
        certificate(c, nm + "/unscaled-solution", p, un, 3e-8 * k, 0, 2.3e-16);
        c.event("scaled_solved");
    }
}
static void identity(vt::Case& c)
{
    Prob p = unusual(c);
    Data o = data(p), d = data(p);
    polympc::IdentityPreconditioner pc;
    pc.compute(d.H, d.h, d.A, d.al, d.au, d.l, d.u); pc.scale(d.H, d.h, d.A, d.al, d.au, d.l, d.u);
    V x = V::Random(); Y y = Y::Random(); V x1 = x; Y y1 = y;
    pc.scale(x1, y1); pc.unscale(x1, y1); pc.unscale_hessian(d.H); pc.unscale(d.H, d.h, d.A, d.al, d.au, d.l, d.u);
    same(c, d, o, 0, "Identity"); c.check(x == x1 && y == y1, "Identity/point");
    mix(c, p); c.nontrivial();
}
static vt::Reg r1(P_SP ? (sizeof(S) == 4 ? "ruiz_sparse_f" : M > 3 ? "ruiz_sparse_2" : "ruiz_sparse") : (sizeof(S) == 4 ? "ruiz_dense_f" : M > 3 ? "ruiz_dense_2" : "ruiz_dense"), pre, 4000, 200000);
static vt::Reg r2(P_SP ? (sizeof(S) == 4 ? "identity_sparse_f" : M > 3 ? "identity_sparse_2" : "identity_sparse") : (sizeof(S) == 4 ? "identity_dense_f" : M > 3 ? "identity_dense_2" : "identity_dense"), identity, 300, 2000);
