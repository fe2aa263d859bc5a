// Pseudo-inverse, Lyapunov and Riccati solvers and the LQR gain against their defining equations.
#include <cstddef>
#include "control/lqr.hpp"
#include "lqr_ref.hpp"
#include "vt.hpp"
double second_unit();
namespace {
typedef Eigen::MatrixXd M; typedef Eigen::VectorXd V;
M gauss(vt::Rng& r, int a, int b, double s = 1) { M m(a, b); for (int j = 0; j < b; ++j) for (int i = 0; i < a; ++i) m(i, j) = s * r.normal(); return m; }
M orth(vt::Rng& r, int n) { return rand_orth(gauss(r, n, n)); }
// a real matrix with prescribed real parts of its spectrum, real and complex pairs mixed, non-normal
M spectrum(vt::Rng& r, int n, double lo, double hi, int& pairs)
{
    M t = M::Zero(n, n); pairs = 0;
    for (int i = 0; i < n; ++i)
        if (i + 1 < n && r.chance(0.5)) { const double a = r.uniform(lo, hi), w = r.logu(0.1, 5), k = r.logu(0.3, 3); t(i, i) = t(i + 1, i + 1) = a; t(i, i + 1) = w * k; t(i + 1, i) = -w / k; ++i; ++pairs; }
        else t(i, i) = r.uniform(lo, hi);
    for (int i = 0; i < n; ++i) for (int j = i + 2; j < n; ++j) if (r.chance(0.5)) t(i, j) += r.normal();
    const M u = orth(r, n); return u * t * u.transpose();
}

#if PART == 0
void b_pinv(vt::Case& c)
{
    vt::Rng& r = c.rng; const int m = r.range(1, 7), n = r.range(1, 7), k = r.range(0, std::min(m, n)); const double sc = r.logu(1e-6, 1e6), spread = r.logu(1, 1e4);
    M a = M::Zero(m, n); double smin = INFINITY;
    { const M u = orth(r, m), v = orth(r, n); for (int i = 0; i < k; ++i) { const double s = r.logu(sc / spread, sc); smin = std::min(smin, s); a += s * u.col(i) * v.col(i).transpose(); } }
    if (k == 0) a.setZero();
    c.cfg = vt::fmt("%dx%d rank=%d scale=%.2g spread=%.2g", m, n, k, sc, spread); c.mixm(a); c.nontrivial();
    const M keep = a, x = pinv(a); c.event(m > n ? "tall" : m < n ? "wide" : "square"); if (k < std::min(m, n)) c.event("rank_deficient"); if (sc < 1e-5) c.event("small_scale");
    c.check(keep == a, "pinv/argument-modified");
    if (!c.check(x.rows() == n && x.cols() == m && x.allFinite(), "pinv/shape")) return;
    if (k == 0) { c.check(x.isZero(0), "pinv/of-zero"); return; }
    const ML A = a.cast<L>(), X = x.cast<L>(); const double tol = 1e-11 * spread; // relative
    c.le((double)((A * X * A - A).norm() / A.norm()), tol, "pinv/AXA");
    c.le((double)((X * A * X - X).norm() / X.norm()), tol, "pinv/XAX");
    c.le((double)((A * X) - (A * X).transpose()).norm(), tol, "pinv/AX-symmetric");
    c.le((double)((X * A) - (X * A).transpose()).norm(), tol, "pinv/XA-symmetric");
}
void b_lyap(vt::Case& c)
{
    vt::Rng& r = c.rng; const int n = r.range(1, 6); int pairs;
    const double sc = r.logu(1e-3, 1e3), s = r.sign(); M A = sc * spectrum(r, n, s > 0 ? 0.2 : -3, s > 0 ? 3 : -0.2, pairs);
    if (r.chance(0.3)) A = sc * spectrum(r, n, -3, 3, pairs);
    if (r.chance(0.1)) { A.setZero(); for (int i = 0; i < n; ++i) A(i, i) = -sc * r.range(1, 3); }
    if (r.chance(0.1)) { A.setZero(); for (int i = 0; i < n; ++i) { A(i, i) = -sc; if (i) A(i - 1, i) = sc; } } // Jordan block
    M Q = gauss(r, n, n, r.logu(1e-3, 1e3)); const bool sym = r.chance(0.6); if (sym) Q = (Q + Q.transpose()).eval();
    c.cfg = vt::fmt("n=%d scale=%.2g %s pairs=%d", n, sc, sym ? "symmetric" : "general", pairs); c.mixm(A); c.mixm(Q);
    ML X; double cond = 0;
    if (!ref_lyapunov(A.cast<L>(), Q.cast<L>(), X, cond) || !(cond < 1e8)) { c.event("nearly_singular"); return; }
    c.nontrivial();
    const M A0 = A, Q0 = Q, x = lyapunov(A, Q); c.check(A0 == A && Q0 == Q, "lyapunov/argument-modified"); if (pairs) c.event("complex_eigenvalues"); if (!sym) c.event("general_right_hand_side");
    c.le((double)((x.cast<L>() - X).norm() / X.norm()), 1e-13 * cond + 1e-12, "lyapunov/solution");
    c.le((double)((A.cast<L>() * x.cast<L>() + x.cast<L>() * A.cast<L>().transpose() - Q.cast<L>()).norm() / (A.norm() * x.norm() + Q.norm())), 1e-11, "lyapunov/residual");
}
void b_ls(vt::Case& c)
{
    vt::Rng& r = c.rng; const double a = r.logu(1e-12, 1e6), q = r.logu(1e-15, 1e8), cc = r.chance(0.05) ? 0 : a * q, b = std::sqrt(a * cc) * r.uniform(-1, 1);
    c.cfg = vt::fmt("a=%.3g b=%.3g c=%.3g", a, b, cc); c.mixin(a); c.mixin(b); c.mixin(cc); c.nontrivial();
    const double t = line_search_care(a, b, cc); auto f = [&](L x) { return (L)a * (1 - x) * (1 - x) - 2 * (L)b * (1 - x) * x * x + (L)cc * x * x * x * x; };
    if (!c.check(t >= 1e-5 && t <= 2, "step/outside-range", vt::fmt("t=%.17g", t))) return;
    L best = INFINITY; for (int i = 0; i <= 4000; ++i) best = std::min(best, f(1e-5L + i * (2 - 1e-5L) / 4000));
    c.event(t == 1 ? "full" : t < 1 ? "short" : "long");
    c.le((double)f(t), (double)(best + 1e-6L * a), "step/not-the-minimiser");
}
#else
void b_lqr(vt::Case& c)
{
    vt::Rng& r = c.rng; const int n = r.range(1, r.chance(0.3) ? 8 : 4), m = r.range(1, 3); int pairs = 0;
    const int kind = r.range(0, 5); M F, G = gauss(r, n, m, r.logu(0.3, 3));
    if (kind == 0) F = gauss(r, n, n, r.logu(0.1, 3));
    else if (kind == 1) F = spectrum(r, n, -2, -0.1, pairs);
    else if (kind == 2) F = spectrum(r, n, 0.1, 2, pairs);
    else if (kind == 3) { F = M::Zero(n, n); for (int i = 1; i < n; ++i) F(i - 1, i) = r.uniform(0.5, 2); }             // integrators
    else if (kind == 4) { F = M::Zero(n, n); for (int i = 0; i + 1 < n; i += 2) { F(i, i + 1) = r.uniform(0.5, 2); F(i + 1, i) = -r.uniform(0.5, 2); } } // undamped oscillators
    else F = spectrum(r, n, -2, 2, pairs);
    int hidden = 0;
    if (n > 1 && r.chance(0.15)) { hidden = r.range(1, n - 1); F.bottomLeftCorner(hidden, n - hidden).setZero(); int p; F.bottomRightCorner(hidden, hidden) = spectrum(r, hidden, -2, -0.3, p); G.bottomRows(hidden).setZero(); } // uncontrollable, stable
    M q = gauss(r, n, r.chance(0.3) ? r.range(1, n) : n, r.logu(0.1, 10)); M Qt = q * q.transpose(); M R = gauss(r, m, m); R = (R * R.transpose() + r.logu(0.05, 2) * M::Identity(m, m)).eval(); R = (0.5 * (R + R.transpose())).eval();
    M Mx = r.chance(0.5) ? M(M::Zero(n, m)) : gauss(r, n, m, r.logu(0.1, 2)); const M Ri = R.inverse();
    M Q = Qt + Mx * Ri * Mx.transpose(); Q = (0.5 * (Q + Q.transpose())).eval();        // Q - M R^-1 M' = q q'
    const bool check = r.chance(0.5), bad = check && r.chance(0.2); if (bad)
    {
        const V v = gauss(r, n, 1).normalized();
        if (r.chance(0.4)) Q -= (2 * Q.norm() + 1) * v * v.transpose();
        else { const M P = M::Identity(n, n) - v * v.transpose(); Q = P * Qt * P + Mx * Ri * Mx.transpose() - Qt.norm() * r.logu(1e-4, 1) * v * v.transpose(); Q = (0.5 * (Q + Q.transpose())).eval(); } // indefinite through one direction, possibly only because of the cross weight
    }
    c.cfg = vt::fmt("n=%d m=%d kind=%d hidden=%d cross=%d check=%d bad=%d rankQ=%d", n, m, kind, hidden, !Mx.isZero(), check, bad, (int)q.cols()); c.mixm(F); c.mixm(G); c.mixm(Q); c.mixm(R);
    // reference: stable invariant subspace of the Hamiltonian in long double
    const ML f = F.cast<L>(), g = G.cast<L>(), rinv = R.cast<L>().inverse(), mm = Mx.cast<L>(), A = f - g * rinv * mm.transpose(), B = g * rinv * g.transpose(), C = Q.cast<L>() - mm * rinv * mm.transpose();
    M S = M::Constant(n, n, 7.25), K = M::Constant(m, n, 7.25); const M keep[5] = {F, G, Q, R, Mx};
    bool easy = false; double cs = 0; ML Sr;
    if (!bad)
    {
        L gap = 0;
        if (ref_care(A, B, C, Sr, gap))
        {
            cs = -abscissa(A - B * Sr);
            // the starting guess: (A + b I) Z + Z (A + b I)' = 2 B B' must be solvable and its solution well conditioned
            easy = gap > 0.05L && cs > 0.05 && Sr.norm() < 1e3L * (1 + C.norm()) && (A.transpose() * Sr + Sr * A - Sr * B * Sr + C).norm() < 1e-9L * (1 + C.norm() + A.norm() * Sr.norm()) && (hidden || ref_guess(A, B) > 1e-9L);
        }
        if (!easy) { c.event("ill_posed"); return; }
    }
    c.nontrivial();
    lqr(F, G, Q, R, Mx, S, K, check);
    c.check(keep[0] == F && keep[1] == G && keep[2] == Q && keep[3] == R && keep[4] == Mx, "lqr/argument-modified");
    if (bad) { c.event("rejected"); c.check(S.isZero(0) && K.isZero(0), "lqr/indefinite-weights-not-rejected"); return; }
    c.event("lqr"); if (!Mx.isZero()) c.event("lqr_cross"); if (q.cols() < n) c.event("lqr_semidefinite"); if (hidden) c.event("lqr_uncontrollable"); if (abscissa(f) > 0) c.event("lqr_unstable_plant");
    const ML s = S.cast<L>(); const double sz = (double)(C.norm() + 2 * A.norm() * s.norm() + B.norm() * s.norm() * s.norm());
    if (!c.check(S.allFinite() && K.allFinite(), "lqr/not-finite")) return;
    c.le((double)(s * A + A.transpose() * s - s * B * s + C).norm() / sz, 1e-8, "lqr/riccati-residual");
    c.maximum("riccati_residual", (double)(s * A + A.transpose() * s - s * B * s + C).norm() / sz);
    c.le((double)(s - s.transpose()).norm() / (1 + S.norm()), 1e-8, "lqr/not-symmetric");
    c.le((double)(s - Sr).norm() / (1 + (double)Sr.norm()), 1e-6 / std::min(1.0, cs), "lqr/not-the-stabilising-solution");
    c.le((double)(K.cast<L>() - rinv * (g.transpose() * s + mm.transpose())).norm() / (1 + K.norm()), 1e-10 * (double)(R.norm() * rinv.norm()), "lqr/gain");
    const ML cl = f - g * K.cast<L>(); c.check(abscissa(cl) < 0, "lqr/closed-loop-unstable");
    // the cost of the closed loop is x'Sx: (cl)'S + S cl + Q + K'RK - MK - K'M' = 0
    const ML k = K.cast<L>(); const ML res = cl.transpose() * s + s * cl + Q.cast<L>() + k.transpose() * R.cast<L>() * k - mm * k - k.transpose() * mm.transpose();
    c.le((double)res.norm() / (sz + (double)(Q.norm() + 2 * (mm * k).norm())), 1e-7, "lqr/cost-of-the-closed-loop");
    // the building blocks on the same problem
    const M Ad = A.cast<double>(), Bd = B.cast<double>(), Cd = C.cast<double>(), X0 = init_newton_care(Ad, Bd); c.check(abscissa((Ad - Bd * X0).cast<L>()) < 0, "care/initial-guess-not-stabilising"); c.event("initial_guess");
    const M X1 = care(Ad, Bd, Cd); c.le((double)(X1.cast<L>() - Sr).norm() / (1 + (double)Sr.norm()), 1e-6 / std::min(1.0, cs), "care/solution");
    const M X2 = newton_ls_care(Ad, Bd, Cd, X1); c.le((X2 - X1).norm() / (1 + X1.norm()), 1e-6 / std::min(1.0, cs), "care/fixed-point");
}
void b_link(vt::Case& c) { c.nontrivial(); c.check(second_unit() == 0.5, "header/second-translation-unit"); }
#endif
#if PART == 0
vt::Reg r1("pinv", b_pinv, 3000, 200000), r2("lyapunov", b_lyap, 3000, 100000), r3("step", b_ls, 2000, 100000);
#else
vt::Reg r4("lqr", b_lqr, 4000, 100000), r5("twice_included", b_link, 1, 1);
#endif
}
