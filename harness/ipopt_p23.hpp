// Ipopt's side of the adapter: a script that calls the TNLP like the solver does, on exact-size heap arrays, and compares every answer.
#include "mocks/IpIpoptApplication.hpp"
#include <memory>
namespace ipt {
typedef Eigen::MatrixXd M; typedef Eigen::VectorXd V;
struct Truth { double cost; V grad, c; M J, W; double tol, ltol; };
template <class T> struct Arr   // exact size on the heap: AddressSanitizer sees every step outside
{
    std::unique_ptr<T[]> p; int n;
    explicit Arr(int k, T v) : p(new T[k > 0 ? k : 1]), n(k) { std::fill(p.get(), p.get() + k, v); if (!k) p.reset(new T[0]); }
    operator T*() { return p.get(); }
    V vec() const { V v(n); for (int i = 0; i < n; ++i) v(i) = (double)p[i]; return v; }
};
inline V some(vt::Rng& r, int n, double zero = 0.2) { V v(n); for (int i = 0; i < n; ++i) v(i) = r.chance(zero) ? 0 : r.uniform(-2, 2); return v; }
inline void put(const V& a, double* b) { for (int i = 0; i < a.size(); ++i) b[i] = a(i); }

template <class Interface, class Oracle, class Points, class SetPar>
void run(vt::Case& c, Interface& s, int n, int ne, int ni, Oracle truth, Points point, SetPar setpar)
{
    vt::Rng& r = c.rng;
    const int m = ne + ni; const double inf = std::numeric_limits<double>::infinity();
    auto same = [&](const V& a, const V& b, const char* key) { return c.check(a.size() == b.size() && (a.array() == b.array()).all(), key, "vectors differ"); };
    // defaults: nothing is bounded
    for (int i = 0; i < n; ++i) { c.check(s.lower_bound_x()(i) == -inf && s.upper_bound_x()(i) == inf, "ipopt/default-box"); }
    for (int i = 0; i < ni; ++i) { c.check(s.lower_bound_g()(i) == -inf && s.upper_bound_g()(i) == inf, "ipopt/default-bounds"); }
    V xl = V::Constant(n, -inf), xu = V::Constant(n, inf), gl = V::Constant(ni, -inf), gu = V::Constant(ni, inf), lastx, lastl;
    const int solves = r.range(1, 3);
    for (int k = 0; k < solves; ++k)
    {
        setpar(r);
        for (int i = 0; i < n; ++i) { if (r.chance(0.5)) { xl(i) = r.uniform(-3, 0); s.lower_bound_x()(i) = xl(i); } if (r.chance(0.5)) { xu(i) = r.uniform(0, 3); s.upper_bound_x()(i) = xu(i); } }
        for (int i = 0; i < ni; ++i) { if (r.chance(0.5)) { gl(i) = r.uniform(-3, 0); s.lower_bound_g()(i) = gl(i); } if (r.chance(0.5)) { gu(i) = r.uniform(0, 3); s.upper_bound_g()(i) = gu(i); } }
        const bool guess = k == 0 || r.chance(0.6); V gx = some(r, n), gz = some(r, m + n), ax = some(r, n), zl(n), zu(n), al = some(r, m), ag = some(r, m);
        for (int i = 0; i < n; ++i) { zl(i) = r.chance(0.6) ? 0 : r.uniform(0, 2); zu(i) = r.chance(0.6) ? 0 : r.uniform(0, 2); }
        const double obj = r.normal(); const int iter = r.range(0, 50); double five[5]; for (double& f : five) f = r.unit();
        const Ipopt::ApplicationReturnStatus st = r.pick(std::vector<Ipopt::ApplicationReturnStatus>{Ipopt::Solve_Succeeded, Ipopt::Maximum_Iterations_Exceeded, Ipopt::Infeasible_Problem_Detected, Ipopt::Solved_To_Acceptable_Level});
        bool called = false; const int limit = r.range(1, 500); s.settings().SetIntegerValue("max_iter", limit);
        Ipopt::IpoptApplication::script() = [&](Ipopt::TNLP& t, Ipopt::OptionsList& o, Ipopt::SolveStatistics& stat) {
            called = true;
            c.check(o.in["max_iter"] == limit, "ipopt/options");
            Ipopt::Index a = -1, b = -1, nj = -1, nh = -1; Ipopt::TNLP::IndexStyleEnum style = Ipopt::TNLP::FORTRAN_STYLE;
            if (!c.check(t.get_nlp_info(a, b, nj, nh, style) && a == n && b == m && nj >= 0 && nj <= n * m && nh >= 0 && nh <= n * (n + 1) / 2 && (style == Ipopt::TNLP::C_STYLE || style == Ipopt::TNLP::FORTRAN_STYLE), "ipopt/nlp-info", vt::fmt("n %d m %d nnz %d %d", a, b, nj, nh))) return st;
            const int base = style == Ipopt::TNLP::C_STYLE ? 0 : 1;
            Arr<double> l(n, 7), u(n, 7), cl(m, 7), cu(m, 7);
            c.check(t.get_bounds_info(n, l, u, m, cl, cu), "ipopt/bounds");
            same(l.vec(), xl, "ipopt/box-lower"); same(u.vec(), xu, "ipopt/box-upper");
            V el = V::Zero(m), eu = V::Zero(m); el.tail(ni) = gl; eu.tail(ni) = gu;
            same(cl.vec(), el, "ipopt/constraint-lower"); same(cu.vec(), eu, "ipopt/constraint-upper");
            const int wish = r.range(0, 7); Arr<double> x0(n, 7), z1(n, 7), z2(n, 7), la(m, 7);
            c.check(t.get_starting_point(n, wish & 1, x0, wish & 2, z1, z2, m, wish & 4, la), "ipopt/starting-point");
            const V bx = guess ? gx : lastx, bl = guess ? gz : lastl; c.event(guess ? "start_given" : "start_previous");
            if (wish & 1) same(x0.vec(), bx, "ipopt/start-x"); else same(x0.vec(), V::Constant(n, 7), "ipopt/start-unasked");
            if (wish & 2) { same(z1.vec(), (-bl.tail(n)).cwiseMax(0.0), "ipopt/start-zl"); same(z2.vec(), bl.tail(n).cwiseMax(0.0), "ipopt/start-zu"); }
            if (wish & 4) same(la.vec(), bl.head(m), "ipopt/start-lambda");
            Arr<int> jr(nj, -9), jc(nj, -9), hr(nh, -9), hc(nh, -9);
            c.check(t.eval_jac_g(n, nullptr, false, m, nj, jr, jc, nullptr) && t.eval_h(n, nullptr, false, 1, m, nullptr, false, nh, hr, hc, nullptr), "ipopt/structure");
            for (int i = 0; i < nj; ++i) if (!c.check(jr[i] - base >= 0 && jr[i] - base < m && jc[i] - base >= 0 && jc[i] - base < n, "ipopt/jacobian-structure", vt::fmt("entry %d: %d %d", i, jr[i], jc[i]))) return st;
            for (int i = 0; i < nh; ++i) if (!c.check(hr[i] - base >= 0 && hr[i] - base < n && hc[i] - base >= 0 && hc[i] - base < n, "ipopt/hessian-structure", vt::fmt("entry %d: %d %d", i, hr[i], hc[i]))) return st;
            const int rounds = r.range(4, 10); int which = 0; V px, plam; // the point and the multipliers of the previous call
            for (int e = 0; e < rounds; ++e)
            {
                if (e == 0 || r.chance(0.5)) which = r.range(0, 2);
                const V pv = point(which); const bool nx = px.size() != n || (px.array() != pv.array()).any(); px = pv; c.event(nx ? "new_x" : "same_x"); Arr<double> x(n, 0); put(pv, x);
                const V lam = plam.size() && r.chance(0.3) ? plam : some(r, m); const bool nl = plam.size() != m || (plam.array() != lam.array()).any();  const double of = r.chance(0.4) ? 1 : r.chance(0.3) ? 0 : r.uniform(0.2, 3); Arr<double> lv(m, 0); put(lam, lv);
                const int what = r.range(0, 4); c.event(vt::fmt("eval%d", what));
                const Truth q = truth(which, lam, of, what < 1 || what == 2 ? 0 : what == 4 ? 2 : 1);
                switch (what)
                {
                case 0: { double v = NAN; t.eval_f(n, x, nx, v); c.near(v, q.cost, q.tol, "ipopt/eval_f"); break; }
                case 1: { Arr<double> g(n, NAN); t.eval_grad_f(n, x, nx, g); c.nearm(g.vec(), q.grad, q.tol, "ipopt/eval_grad_f"); break; }
                case 2: { Arr<double> g(m, NAN); t.eval_g(n, x, nx, m, g); c.nearm(g.vec(), q.c, q.tol, "ipopt/eval_g"); break; }
                case 3: { Arr<double> v(nj, NAN); t.eval_jac_g(n, x, nx, m, nj, nullptr, nullptr, v); M J = M::Zero(m, n); for (int i = 0; i < nj; ++i) J(jr[i] - base, jc[i] - base) += v[i]; c.nearm(J, q.J, q.tol, "ipopt/eval_jac_g"); break; }
                case 4: {
                    plam = lam;
                    Arr<double> v(nh, NAN); t.eval_h(n, x, nx, of, m, lv, nl, nh, nullptr, nullptr, v);
                    M H = M::Zero(n, n); for (int i = 0; i < nh; ++i) H(std::max(hr[i], hc[i]) - base, std::min(hr[i], hc[i]) - base) += v[i];
                    c.nearm(H, M(q.W.triangularView<Eigen::Lower>()), q.ltol, "ipopt/eval_h"); break; }
                }
                same(x.vec(), pv, "ipopt/x-modified"); same(lv.vec(), lam, "ipopt/lambda-modified");
            }
            Arr<double> fx(n, 0), f1(n, 0), f2(n, 0), fg(m, 0), fl(m, 0); put(ax, fx); put(zl, f1); put(zu, f2); put(ag, fg); put(al, fl);
            t.finalize_solution(Ipopt::SUCCESS, n, fx, f1, f2, m, fg, fl, obj, nullptr, nullptr);
            stat.iter = iter; stat.obj = obj; std::copy(five, five + 5, stat.inf);
            return st;
        };
        std::cout.setstate(std::ios::failbit);
        if (guess && r.chance(0.7)) { typename Interface::nlp_variable_t a = gx; typename Interface::nlp_dual_t b = gz; s.solve(a, b); }
        else { if (guess) { s.primal_solution() = gx; s.dual_solution() = gz; } s.solve(); }
        std::cout.clear();
        c.check(called, "ipopt/never-called"); c.event("solves");
        same(s.primal_solution().template cast<double>(), ax, "ipopt/solution-x");
        V el(m + n); el.head(m) = al; el.tail(n) = zu - zl;
        same(s.dual_solution().template cast<double>(), el, "ipopt/solution-multipliers");
        c.check(s.info().status == st && s.info().iter == iter, "ipopt/info"); c.check(s.cost() == obj, "ipopt/cost"); c.check(s.dual_norm() == five[0] && s.constr_violation() == five[1], "ipopt/norms");
        lastx = ax; lastl = el;
    }
}
}
