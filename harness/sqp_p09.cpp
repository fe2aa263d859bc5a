// The default step size selection (l1 merit line search) against its definition, called directly.
#include "sqp_nlp.hpp"
namespace {
const L U = sizeof(F) == 4 ? 1.2e-7L : 2.3e-16L;
void body(vt::Case& c)
{
    vt::Rng& r = c.rng;
    sq::Data d = sq::random_data(r, N_X, N_E, N_I, N_P);
    MonSolver s; s.problem.d = &d;
    for (int i = 0; i < N_X; ++i) { s.lower_bound_x()(i) = (F)d.lbx(i); s.upper_bound_x()(i) = (F)d.ubx(i); }
    for (int i = 0; i < N_I; ++i) { s.lower_bound_g()(i) = (F)d.lbg(i); s.upper_bound_g()(i) = (F)d.ubg(i); }
    for (int i = 0; i < N_P; ++i) s.parameters()(i) = (F)d.p(i);
    for (int rep = 0; rep < 3; ++rep)
    {
        s.settings().tau = (F)r.pick(std::vector<double>{0.5, 0.5, 0.9, 0.1, 0.7}); s.settings().eta = (F)r.pick(std::vector<double>{0.25, 0.25, 1e-4, 0.9, 0.5});
        s.settings().line_search_max_iter = r.pick(std::vector<int>{100, 100, 10, 3, 1, 2});
        XV x, p;
        const int at = r.range(0, 3);
        for (int i = 0; i < N_X; ++i) { L v = r.normal(); if (at == 0) v = std::min(std::max(v, d.lbx(i)), d.ubx(i)); x(i) = (F)v; }
        const VL X = x.template cast<L>();
        const VL g = d.f.grad(X, d.p);
        const int dir = r.range(0, 4); const L sc = r.pick(std::vector<double>{1, 1, 10, 100, 1e-3});
        for (int i = 0; i < N_X; ++i) p(i) = (F)(dir == 0 ? sc * r.normal() : dir == 1 ? -sc * g(i) : dir == 2 ? sc * g(i) : dir == 3 ? -sc * g(i) + r.normal() : 0);
        const VL Pd = p.template cast<L>();
        for (int i = 0; i < M_C + N_X; ++i) s.m_lam_k(i) = (F)(r.chance(0.3) ? 0 : r.normal() * r.pick(std::vector<double>{1, 10}));
        s.m_x = x; s.m_h = g.template cast<F>(); s.m_lam.setZero(); s.m_H.setZero(); s.m_A.setZero(); // the last two are only read by the monitor
        const L mu = s.m_lam_k.template lpNorm<Eigen::Infinity>();
        c.cfg = vt::fmt("tau=%g eta=%g max=%d dir=%d scale=%Lg mu=%Lg", (double)s.settings().tau, (double)s.settings().eta, s.settings().line_search_max_iter, dir, sc, mu);
        c.nontrivial(); c.mixm(x); c.mixm(p);
        const F alpha = s.step_size_selection(p);
        c.event("line_search");
        if (!c.check(s.m_x == x && s.m_h == g.template cast<F>(), "state-changed")) return;
        auto phi = [&](const VL& z, L* mag) { const L f = d.f.val(z, d.p), v = d.viol1(z); L m = 1 + std::fabs(f) + mu * v; const L q = z.squaredNorm() * (1 + d.f.Q.norm()) + d.f.c.norm() * z.norm(); m += q; m += mu * q * M_C; for (auto& e : d.e) m += mu * (e.Q.norm() * z.squaredNorm() + e.c.norm() * z.norm()); for (auto& e : d.g) m += mu * (e.Q.norm() * z.squaredNorm() + e.c.norm() * z.norm());
            for (size_t j = 0; j < d.f.w.size(); ++j) m += std::fabs(d.f.w[j]) * std::exp(d.f.a[j].dot(z)) * (1 + d.f.a[j].norm() * z.norm());
            for (auto& e : d.g) for (size_t j = 0; j < e.w.size(); ++j) m += mu * std::fabs(e.w[j]) * std::exp(e.a[j].dot(z)) * (1 + e.a[j].norm() * z.norm());
            // a violation that overflows makes the merit function inf or NaN even if its weight is zero
            L o = std::fabs(v); for (auto& e : d.g) { o += e.Q.norm() * z.squaredNorm(); for (size_t j = 0; j < e.w.size(); ++j) o += std::fabs(e.w[j]) * std::exp(e.a[j].dot(z)); }
            *mag = o < std::numeric_limits<F>::max() / 4 ? m : (L)std::numeric_limits<F>::infinity(); return f + mu * v; };
        L m0; const L f0 = phi(X, &m0), D = g.dot(Pd) - mu * d.viol1(X);
        L a = 1; F af = 1; const int n = s.settings().line_search_max_iter; bool matched = false;
        for (int k = 1; k <= n; ++k)
        {
            L m1 = 0, f1 = 0;
            if (k < n) f1 = phi(X + a * Pd, &m1);
            const L slack = 400 * U * (m0 + m1 + std::fabs(a * D) + a * g.norm() * Pd.norm()), def = f1 - (f0 + a * (L)s.settings().eta * D);
            const bool here = af == alpha || std::fabs((L)alpha - a) <= 100 * U * a;
            if (k == n) { if (here) { c.event("exhausted"); matched = true; } break; }
            if (here && !(def > slack)) { c.event(k == 1 ? "full_step" : "reduced_step"); matched = true; break; }
            if (here) { c.fail("armijo", vt::fmt("accepted step %Lg violates the sufficient decrease by %Lg (trial %d)", (L)alpha, def, k)); return; }
            if (!(def > -slack) && std::isfinite((double)m1)) { c.fail("step-rejected", vt::fmt("trial %d with step %Lg satisfies the condition by %Lg but %Lg was returned", k, a, -def, (L)alpha)); return; }
            a *= (L)s.settings().tau; af = (F)(s.settings().tau * af);
            if (a < 1e-25L && sizeof(F) == 4) { matched = true; c.event("underflow"); break; }
        }
        if (!c.check(matched, "step-not-a-power-of-tau", vt::fmt("alpha=%Lg", (L)alpha))) return;
        // the merit function never increases for a descent direction
        c.check(alpha > 0 && alpha <= 1, "step-range");
        // constraint violation measures
        L v1 = d.viol1(X), vi = d.violinf(X); L m; phi(X, &m); L mg = 1 + m / (1 + 0); for (auto& e : d.e) mg += e.Q.norm() * X.squaredNorm() + e.c.norm() * X.norm(); for (auto& e : d.g) { mg += e.Q.norm() * X.squaredNorm() + e.c.norm() * X.norm(); for (size_t j = 0; j < e.w.size(); ++j) mg += std::fabs(e.w[j]) * std::exp(e.a[j].dot(X)) * (1 + e.a[j].norm() * X.norm()); }
        c.near(s.constraints_violation(x), (double)v1, (double)(200 * U * mg), "l1-violation"); c.near(s.max_constraints_violation(x), (double)vi, (double)(200 * U * mg), "max-violation");
    }
}
#define STR2(x) #x
#define STR1(x) STR2(x)
vt::Reg reg("linesearch_" STR1(NLP_NAME), body, 6000, 600000);
}
