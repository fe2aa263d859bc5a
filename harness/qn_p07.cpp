// Dense quasi-Newton updates (BFGS_update, SR1_update) against the defining formulas in long double.
#include <Eigen/Dense>
#include "solvers/bfgs.hpp"
#include "solvers/sr1.hpp"
#include "vt.hpp"
#ifndef B_N
#define B_N 4
#define B_F double
#define B_DYN 0
#endif
namespace {
typedef B_F F; typedef long double L;
typedef Eigen::Matrix<L, Eigen::Dynamic, Eigen::Dynamic> ML; typedef Eigen::Matrix<L, Eigen::Dynamic, 1> VL;
#if B_DYN
typedef Eigen::Matrix<F, Eigen::Dynamic, Eigen::Dynamic> MF; typedef Eigen::Matrix<F, Eigen::Dynamic, 1> VF;
#else
typedef Eigen::Matrix<F, B_N, B_N> MF; typedef Eigen::Matrix<F, B_N, 1> VF;
#endif
const int N = B_N;
const L U = sizeof(F) == 4 ? 1.2e-7L : 2.3e-16L;
L mineig(const ML& B) { return Eigen::SelfAdjointEigenSolver<ML>((B + B.transpose()) / 2, Eigen::EigenvaluesOnly).eigenvalues()(0); }

// the way the solvers call it: the matrix through a Ref, the vectors through const Refs to expressions
void call(int which, MF& B, const VF& s, const VF& y, bool ref)
{
    if (ref)
    {
        Eigen::Ref<MF> R(B); const Eigen::Ref<const VF> rs(s), ry(y);
        if (which) SR1_update(R, rs, ry); else BFGS_update(R, rs, ry);
    }
    else if (which) SR1_update(B, s, y); else BFGS_update(B, s, y);
}
ML random_B(vt::Rng& r, int kind)
{
    ML G(N, N); for (int i = 0; i < N * N; ++i) G.data()[i] = r.normal();
    if (kind == 0) return ML::Identity(N, N) * (L)r.logu(1e-3, 1e3);
    ML q = Eigen::HouseholderQR<ML>(G).householderQ(); VL d(N);
    for (int i = 0; i < N; ++i) d(i) = r.logu(1e-2, 1e2);
    if (kind == 2) for (int i = 0; i < N; ++i) if (r.chance(0.5)) d(i) = 0;      // singular
    if (kind == 3) { q.setIdentity(); for (int i = 0; i < N; ++i) if (r.chance(0.5)) d(i) = 0; } // exactly singular, diagonal
    if (kind == 4) d.setZero();
    if (kind == 5) for (int i = 0; i < N; ++i) d(i) = r.sign() * r.logu(0.1, 10); // indefinite
    ML B = q * d.asDiagonal() * q.transpose();
    return (B + B.transpose()) / 2;
}
void body(vt::Case& c)
{
    vt::Rng& r = c.rng;
    const int which = r.chance(0.3), kind = r.pick(std::vector<int>{0, 1, 1, 1, 2, 3, 4, which ? 5 : 1});
    const bool ref = r.chance(0.5);
    MF B = random_B(r, kind).cast<F>();
    c.cfg = vt::fmt("%s n=%d kind=%d ref=%d", which ? "SR1" : "BFGS", N, kind, ref); c.nontrivial(); c.mixm(B);
    const char* nm = which ? "sr1" : "bfgs";
    VF s = VF::Zero(N), y = VF::Zero(N);
    const ML Htrue = random_B(r, 1); // curvature generating y = H s
    for (int it = 0; it < 6; ++it)
    {
        const int sk = r.range(0, 9);
        const double sc = r.pick(std::vector<double>{1, 1, 1e-3, 1e-6, 10});
        for (int i = 0; i < N; ++i) s(i) = (F)(sk == 0 ? 0 : sk == 1 && i ? 0 : sc * r.normal());
        const int yk = r.range(0, 7);
        VL yl;
        if (yk <= 3) yl = Htrue * s.cast<L>();
        else if (yk == 4) { yl.resize(N); for (int i = 0; i < N; ++i) yl(i) = sc * r.normal(); }    // any sign of curvature
        else if (yk == 5) yl = -(Htrue * s.cast<L>());                                              // negative curvature
        else if (yk == 6) yl = B.template cast<L>() * s.cast<L>();                                  // nothing to learn
        else { yl = VL::Zero(N); if (r.chance(0.5)) yl = s.cast<L>() * 1e-3L; }
        y = yl.cast<F>();
        const ML B0 = B.template cast<L>(); const VL S = s.template cast<L>(), Y = y.template cast<L>();
        const MF Bin = B; const VF s0 = s, y0 = y;
        call(which, B, s, y, ref);
        c.event(nm);
        if (!c.check(s == s0 && y == y0, vt::fmt("%s/arguments-modified", nm))) return;
        const ML B1 = B.template cast<L>();
        const VL Bs = B0 * S; const L nB0 = B0.norm();
        if (which == 0 && mineig(B0) < -8 * N * U * nB0) { c.event("bfgs_left_psd"); return; } // BFGS_update assumes a positive semidefinite matrix
        if (!c.check(B1.allFinite(), vt::fmt("%s/finite", nm), vt::fmt("B not finite after update (step kind %d, y kind %d, it %d, |B|=%Lg |s|=%Lg |y|=%Lg sBs=%Lg sy=%Lg)", sk, yk, it, B0.norm(), S.norm(), Y.norm(), S.dot(Bs), S.dot(Y)))) return;
         const L sBs = S.dot(Bs), sy = S.dot(Y), nB = B0.norm(), ns = S.norm();
        const bool same = B == Bin;
        if (which == 0)
        {
            const bool damped = sy < 0.2L * sBs;
            VL rr = Y; L sr = sy;
            if (damped) { const L th = 0.8L * sBs / (sBs - sy); rr = th * Y + (1 - th) * Bs; sr = th * sy + (1 - th) * sBs; }
            // errors of the computed curvatures, relative to the size of the terms they are made of
            const L ecurv = 64 * N * U * (nB * ns * ns + Y.norm() * ns);
            const L eps = std::numeric_limits<F>::epsilon();
            if (sr < eps - ecurv) { c.event("bfgs_skip"); c.check(same, "bfgs/degenerate-step-changes-B"); continue; }
            if (kind <= 1 && sBs > 1e3L * ecurv && sr > 10 * eps + 1e3L * ecurv)
            {
                c.event(damped ? "bfgs_damped" : "bfgs_plain");
                const ML E = B0 - Bs * Bs.transpose() / sBs + rr * rr.transpose() / sr;
                const L amp = (1 + nB * ns * ns / sBs) * (1 + (rr.norm() * ns) / sr);
                const L tol = 200 * N * U * amp * amp * (nB + Bs.squaredNorm() / sBs + rr.squaredNorm() / sr);
                if (!c.nearm(B1, E, (double)tol, "bfgs/formula")) return;
                c.check((B1 - B1.transpose()).cwiseAbs().maxCoeff() <= (it + 1) * 64 * U * (nB + Bs.squaredNorm() / sBs + rr.squaredNorm() / sr), "bfgs/symmetric");
                c.check((B1 * S - rr).norm() <= 20 * tol * ns + 64 * U * rr.norm(), "bfgs/secant");
                const L m0 = mineig(B0), m1 = mineig(B1);
                if (m0 > 0) c.check(m1 > -20 * tol, "bfgs/positive-definite", vt::fmt("min eigenvalue %Lg -> %Lg", m0, m1));
                // exact bound on the determinant: det(B+) = det(B) * sr / sBs for the damped formula
                const L d0 = B0.determinant(), d1 = B1.determinant();
                if (m0 > 0 && m1 > 1e4L * tol) { c.event("determinant"); c.check(std::fabs(d1 / d0 - sr / sBs) <= (sr / sBs) * (100 * N * tol * (1 / m1 + 1 / m0)), "bfgs/determinant", vt::fmt("%Lg vs %Lg", d1 / d0, sr / sBs)); }
            }
            else if (sr > 10 * eps && sBs == 0 && Bs.isZero(0))
            { // a flat direction of B with positive curvature: the update learns it and keeps the rest
                c.event("bfgs_flat");
                c.check((B1 * S - Y).norm() <= 1000 * N * U * (nB * ns + Y.norm() * (1 + Y.norm() * ns / sr)), "bfgs/secant-flat", vt::fmt("|B+ s - y| = %Lg", (B1 * S - Y).norm()));
            }
        }
        else
        {
            const VL v = Y - Bs; const L den = v.dot(S), guard = 1e-6L * ns * v.norm(), e = 64 * N * U * (nB * ns + Y.norm()) * ns;
            if (v.norm() <= e / (ns + 1e-300L) * 4 || ns == 0) { c.event("sr1_nothing"); const L lim = ns > 0 ? std::max<L>(v.squaredNorm() / std::max(std::fabs(den), guard), 0) : 0; (void)lim; if (ns == 0 || v.norm() == 0) c.check(same || (ns > 0 && (B1 - B0).norm() <= 1e7L * e / (ns * ns)), "sr1/degenerate-step-changes-B", vt::fmt("|s|=%Lg |v|=%Lg |B|=%Lg |dB|=%Lg yk=%d", ns, v.norm(), nB, (B1 - B0).norm(), yk)); else return; continue; }
            if (std::fabs(den) < guard - e) { c.event("sr1_skip"); c.check(same, "sr1/safeguard"); continue; }
            if (std::fabs(den) > guard + e && std::fabs(den) > 1e3L * e)
            {
                c.event("sr1_update");
                const ML E = B0 + v * v.transpose() / den;
                const L dv = 64 * N * U * (nB * ns + Y.norm());
                const L tol = 8 * (v.norm() * dv / std::fabs(den) + v.squaredNorm() * e / (den * den)) + 64 * U * (nB + v.squaredNorm() / std::fabs(den));
                if (!c.nearm(B1, E, (double)tol, "sr1/formula")) return;
                c.check((B1 * S - Y).norm() <= 4 * N * tol * ns + dv, "sr1/secant");
            }
            else return;
        }
        if (B1.norm() > 1e8L) return; // the sequence left the regime in which the bounds are informative
    }
}
#define STR2(x) #x
#define STR1(x) STR2(x)
vt::Reg reg("update_" STR1(B_N) "_" STR1(B_F) "_" STR1(B_DYN), body, 20000, 2000000);
}
