// MPC wrapper: every setter changes what it names and nothing else, every getter reads what was stored, interpolation in absolute time.
#include "mpc.hpp"
namespace {
using oc::L; using oc::ML; using oc::VL;
typedef Eigen::MatrixXd M;
const oc::Dims n = dims();
const int N = TestOcp::NUM_NODES;
const double INF = INFINITY;
struct Model // indexed by time: node 0 is the initial one
{
    M lx = M::Constant(O_X, N, -INF), ux = M::Constant(O_X, N, INF), lu = M::Constant(O_U, N, -INF), uu = M::Constant(O_U, N, INF), lp = M::Constant(O_P, 1, -INF), up = M::Constant(O_P, 1, INF), lg = M::Constant(O_G, N, -INF), ug = M::Constant(O_G, N, INF);
    M x = M::Zero(O_X, N), u = M::Zero(O_U, N), p = M::Zero(O_P, 1), d = M::Zero(O_D, 1); Eigen::VectorXd lam = Eigen::VectorXd::Zero(TestOcp::DUAL_SIZE);
    double t0 = 0, tf = 1;
};
template <class V> bool same(double a, V b) { return a == (double)b || (std::isnan(a) && std::isnan((double)b)); }
// flat vectors hold the nodes from the final time backwards
template <class V> std::string flat(const M& a, const V& v, long off)
{
    for (int k = 0; k < N; ++k) for (int i = 0; i < a.rows(); ++i) if (!same(a(i, k), v(off + (N - 1 - k) * a.rows() + i))) return vt::fmt("component %d at node %d (time order): got %g expected %g", i, k, (double)v(off + (N - 1 - k) * a.rows() + i), a(i, k));
    return "";
}
bool bounds(vt::Case& c, Mpc& m, const Model& o, const char* op)
{
    struct { const char* n; std::string e; } t[] = {
        {"x-lower", flat(o.lx, m.solver().lower_bound_x(), 0)}, {"x-upper", flat(o.ux, m.solver().upper_bound_x(), 0)},
        {"u-lower", flat(o.lu, m.solver().lower_bound_x(), Mpc::varx_size)}, {"u-upper", flat(o.uu, m.solver().upper_bound_x(), Mpc::varx_size)},
        {"g-lower", flat(o.lg, m.solver().lower_bound_g(), 0)}, {"g-upper", flat(o.ug, m.solver().upper_bound_g(), 0)}};
    bool ok = true;
    for (auto& e : t) ok = c.check(e.e.empty(), vt::fmt("%s/after-%s", e.n, op), e.e) && ok;
    for (int i = 0; i < O_P; ++i) ok = c.check(m.solver().lower_bound_x()(Mpc::varx_size + Mpc::varu_size + i) == (F)o.lp(i, 0) && m.solver().upper_bound_x()(Mpc::varx_size + Mpc::varu_size + i) == (F)o.up(i, 0), vt::fmt("p-bounds/after-%s", op)) && ok;
    for (int i = 0; i < O_D; ++i) ok = c.check(m.solver().parameters()(i) == (F)o.d(i, 0), vt::fmt("static-parameters/after-%s", op)) && ok;
    return ok;
}
bool getters(vt::Case& c, Mpc& m, const Model& o, const char* op)
{
    bool ok = c.check(flat(o.x, m.solution_x(), 0).empty(), vt::fmt("solution_x/after-%s", op), flat(o.x, m.solution_x(), 0)) && c.check(flat(o.u, m.solution_u(), 0).empty(), vt::fmt("solution_u/after-%s", op), flat(o.u, m.solution_u(), 0));
    ok = ok && c.check(m.solution_x_reshaped().template cast<double>() == o.x, vt::fmt("solution_x_reshaped/after-%s", op)) && c.check(m.solution_u_reshaped().template cast<double>() == o.u, vt::fmt("solution_u_reshaped/after-%s", op));
    for (int k = 0; k < N && ok; ++k) ok = c.check(m.solution_x_at(k).template cast<double>() == o.x.col(k), vt::fmt("solution_x_at-node/after-%s", op), vt::fmt("node %d", k)) && c.check(m.solution_u_at(k).template cast<double>() == o.u.col(k), vt::fmt("solution_u_at-node/after-%s", op), vt::fmt("node %d", k));
    ok = ok && c.check(m.solution_p().template cast<double>() == o.p.col(0), vt::fmt("solution_p/after-%s", op)) && c.check(m.solution_dual().template cast<double>() == o.lam, vt::fmt("solution_dual/after-%s", op));
    return ok;
}
bool times(vt::Case& c, vt::Rng& r, Mpc& m, const Model& o, const char* op)
{
    const std::vector<L> tt = oc::times(n, o.t0, o.tf);
    for (int k = 0; k < N; ++k) if (!c.near(m.time_grid(k), (double)tt[N - 1 - k], 16 * U_ * (std::fabs(o.t0) + std::fabs(o.tf)), vt::fmt("time_grid/after-%s", op))) return false;
    const double h = (o.tf - o.t0) / O_SEG;
    for (int i = 0; i < 4; ++i)
    {
        const int where = r.range(0, 5); double t;
        if (where == 0) t = o.t0; else if (where == 1) t = o.tf; else if (where == 2) t = m.time_grid(r.range(0, N - 1)); else if (where == 3) t = o.t0 + r.range(0, O_SEG) * h; else t = r.uniform(o.t0, o.tf);
        const F tf = (F)t; c.event(where == 3 ? "at_knot" : where == 2 ? "at_node" : where < 2 ? "at_end" : "inside");
        for (int w = 0; w < 2; ++w)
        {
            L cond, slope; const M& nod = w ? o.u : o.x;
            if (nod.rows() == 0) continue;
            const VL e = mp::interpolate(n, o.t0, o.tf, nod.template cast<L>(), (L)tf, &cond, &slope);
            const double tol = (double)(200 * U_ * (cond + slope * (std::fabs(o.t0) + std::fabs(o.tf))));
            const M got = w ? M(m.solution_u_at(tf).template cast<double>()) : M(m.solution_x_at(tf).template cast<double>());
            c.maximum("interpolation_tolerance", tol);
            if (!c.nearm(got, e.template cast<double>(), tol, vt::fmt("%s/after-%s", w ? "solution_u_at-time" : "solution_x_at-time", op), vt::fmt("t = %.9g in [%g, %g]", (double)tf, o.t0, o.tf).c_str())) return false;
        }
    }
    return true;
}
void body(vt::Case& c)
{
    vt::Rng& r = c.rng; c.nontrivial();
    auto rd = [&](double x) { return (double)(F)x; };
    MpcMem mem(r.pick(std::vector<int>{0, 0xff, 0x40})); Mpc& m = *mem.c; Model o;
    const mp::Lq lq = mp::lq(r, n, r.chance(0.5) ? 0 : 0.3, SINGLE); m.ocp().s = &lq.s;
    m.settings().max_iter = 2; m.qp_settings().max_iter = 20; if (SINGLE) m.qp_settings().sigma = (F)1e-3;
    double off = 0;
    auto mat = [&](int a, int b, double lo, double hi) { M v(a, b); for (int j = 0; j < b; ++j) for (int i = 0; i < a; ++i) v(i, j) = r.chance(0.1) ? 0 : rd(off + r.uniform(lo, hi)); return v; };
    auto lower = [&](int a, int b) { M v = mat(a, b, -3, -0.5); for (int j = 0; j < b; ++j) for (int i = 0; i < a; ++i) if (r.chance(0.15)) v(i, j) = -INF; return v; };
    auto upper = [&](int a, int b) { M v = mat(a, b, 0.5, 3); for (int j = 0; j < b; ++j) for (int i = 0; i < a; ++i) if (r.chance(0.15)) v(i, j) = INF; return v; };
    auto back = [&](const M& a) { Eigen::Matrix<F, -1, 1> v(a.size()); for (int k = 0; k < N; ++k) for (int i = 0; i < a.rows(); ++i) v((N - 1 - k) * a.rows() + i) = (F)a(i, k); return v; };
    typedef typename Mpc::state_t S; typedef typename Mpc::control_t U; typedef typename Mpc::parameter_t P; typedef typename Mpc::static_param D;
    typedef typename Mpc::traj_state_t TS; typedef typename Mpc::traj_control_t TU; typedef typename Mpc::constraints_t TG; typedef typename Mpc::constraint_t G;
    std::string trace;
    if (!bounds(c, m, o, "construction") || !getters(c, m, o, "construction") || !times(c, r, m, o, "construction")) return;
    for (int step = 0; step < 25; ++step)
    {
        static const char* names[] = {"initial_conditions", "initial_conditions-interval", "x_lower_bound", "x_upper_bound", "state_bounds", "state_trajectory_bounds", "x_final_lower_bound", "x_final_upper_bound", "final_state_bounds", "u_lower_bound", "u_upper_bound", "control_bounds",
                                      "control_trajectory_bounds", "constraints_bounds", "constraints_trajectory_bounds", "parameters_bounds", "set_static_parameters", "x_guess", "u_guess", "p_guess", "lam_guess", "set_time_limits", "solve", "x_guess-of-solution"};
        const int op = r.range(0, 23); const char* nm = names[op];
        off = r.chance(0.4) ? rd(r.uniform(-6, 6)) : 0; // bounds need not enclose zero, nor be consistent while they are being set
        const M xl = lower(O_X, N), xu = upper(O_X, N), ul = lower(O_U, N), uu = upper(O_U, N);
        const S a = xl.col(0).template cast<F>(), b = xu.col(0).template cast<F>(); const U ua = ul.col(0).template cast<F>(), ub = uu.col(0).template cast<F>();
        switch (op)
        {
        case 0: { const M z = mat(O_X, 1, -1, 1); const S v = z.template cast<F>(); m.initial_conditions(v); o.lx.col(0) = o.ux.col(0) = z; break; }
        case 1: m.initial_conditions(a, b); o.lx.col(0) = xl.col(0); o.ux.col(0) = xu.col(0); break;
        case 2: m.x_lower_bound(a); for (int k = 1; k < N; ++k) o.lx.col(k) = xl.col(0); break;
        case 3: m.x_upper_bound(b); for (int k = 1; k < N; ++k) o.ux.col(k) = xu.col(0); break;
        case 4: m.state_bounds(a, b); for (int k = 1; k < N; ++k) { o.lx.col(k) = xl.col(0); o.ux.col(k) = xu.col(0); } break;
        case 5: { const TS l = back(xl), h = back(xu); m.state_trajectory_bounds(l, h); o.lx = xl; o.ux = xu; break; }
        case 6: m.x_final_lower_bound(a); o.lx.col(N - 1) = xl.col(0); break;
        case 7: m.x_final_upper_bound(b); o.ux.col(N - 1) = xu.col(0); break;
        case 8: m.final_state_bounds(a, b); o.lx.col(N - 1) = xl.col(0); o.ux.col(N - 1) = xu.col(0); break;
        case 9: m.u_lower_bound(ua); for (int k = 0; k < N; ++k) o.lu.col(k) = ul.col(0); break;
        case 10: m.u_upper_bound(ub); for (int k = 0; k < N; ++k) o.uu.col(k) = uu.col(0); break;
        case 11: m.control_bounds(ua, ub); for (int k = 0; k < N; ++k) { o.lu.col(k) = ul.col(0); o.uu.col(k) = uu.col(0); } break;
        case 12: { const TU l = back(ul), h = back(uu); m.control_trajecotry_bounds(l, h); o.lu = ul; o.uu = uu; break; }
#if O_G
        case 13: { const M gl = lower(O_G, 1), gu = upper(O_G, 1); const G l = gl.template cast<F>(), h = gu.template cast<F>(); m.constraints_bounds(l, h); for (int k = 0; k < N; ++k) { o.lg.col(k) = gl; o.ug.col(k) = gu; } break; }
        case 14: { const M gl = lower(O_G, N), gu = upper(O_G, N); const TG l = back(gl), h = back(gu); m.constraints_trajectory_bounds(l, h); o.lg = gl; o.ug = gu; break; }
#endif
#if O_P
        case 15: { o.lp = lower(O_P, 1); o.up = upper(O_P, 1); const P l = o.lp.template cast<F>(), h = o.up.template cast<F>(); m.parameters_bounds(l, h); break; }
        case 19: { o.p = mat(O_P, 1, -1, 1); const P v = o.p.template cast<F>(); m.p_guess(v); break; }
#endif
#if O_D
        case 16: { o.d = mat(O_D, 1, -1, 1); const D v = o.d.template cast<F>(); m.set_static_parameters(v); break; }
#endif
        case 17: { o.x = mat(O_X, N, -1, 1); const TS v = back(o.x); m.x_guess(v); break; }
        case 18: { o.u = mat(O_U, N, -1, 1); const TU v = back(o.u); m.u_guess(v); break; }
        case 20: { Eigen::Matrix<F, TestOcp::DUAL_SIZE, 1> v; for (int i = 0; i < v.size(); ++i) v(i) = (F)r.uniform(-1, 1); m.lam_guess(v); o.lam = v.template cast<double>(); break; }
        case 21:
            switch (r.range(0, 5)) // related to the previous window, or a new one
            {
            case 0: { const double l = r.range(1, 8) / 4.0; o.t0 = r.range(-8, 8) / 4.0; o.tf = o.t0 + l; break; } // grid: the same length comes again exactly
            case 1: { const double d = std::ldexp(1.0, r.range(-3, 2)); o.t0 = rd(o.t0 + d); o.tf = rd(o.tf + d); c.event("shifted"); break; }
            case 2: if (r.chance(0.5)) o.tf = rd(o.t0 + r.logu(0.2, 20)); else o.t0 = rd(o.tf - r.logu(0.2, 20)); break;
            default: o.t0 = rd(r.chance(0.4) ? 0 : r.uniform(-1, 1) * r.pick(SINGLE ? std::vector<double>{1, 10} : std::vector<double>{1, 10, 1000})); o.tf = rd(o.t0 + r.logu(0.2, 20));
            }
            m.set_time_limits((F)o.t0, (F)o.tf); break;
        case 22:
        {
            if (std::fabs(o.t0) > 20) continue; // the time-varying terms would dwarf everything else
            if ((o.lx.array() > o.ux.array()).any() || (o.lu.array() > o.uu.array()).any() || (o.lg.array() > o.ug.array()).any() || (o.lp.array() > o.up.array()).any()) { c.event("inconsistent_bounds"); continue; }
            m.settings().max_iter = 2; m.solver().tr = Trace(); m.solve(); c.event("solved_on_the_way");
            if (!c.check(m.info().iter >= 1 && m.info().iter <= 2 && m.solver().tr.iters == m.info().iter, "info-iter")) return;
            for (int k = 0; k < N; ++k) for (int i = 0; i < O_X; ++i) o.x(i, k) = (double)m.solver().primal_solution()((N - 1 - k) * O_X + i);
            for (int k = 0; k < N; ++k) for (int i = 0; i < O_U; ++i) o.u(i, k) = (double)m.solver().primal_solution()(N * O_X + (N - 1 - k) * O_U + i);
            for (int i = 0; i < O_P; ++i) o.p(i, 0) = (double)m.solver().primal_solution()(N * (O_X + O_U) + i);
            o.lam = m.solver().dual_solution().template cast<double>();
            if (!(o.x.allFinite() && o.u.allFinite() && o.p.allFinite() && o.lam.allFinite() && o.x.norm() < 1e6 && o.u.norm() < 1e6)) { c.event("blow_up"); return; }
            break;
        }
        case 23: { const TS v = m.solution_x(); const TU w = m.solution_u(); m.x_guess(v); m.u_guess(w); break; }
        default: continue;
        }
        trace += std::string(" ") + nm; c.cfg = vt::fmt("[%g, %g]", o.t0, o.tf) + trace; c.event(nm); c.mixin((uint64_t)op); c.mixin(o.tf); c.mixm(o.x);
        if (!bounds(c, m, o, nm) || !getters(c, m, o, nm) || !times(c, r, m, o, nm)) return;
    }
}
#define CAT2(a, b) a##b
#define CAT1(a, b) CAT2(a, b)
vt::Reg reg("mpc_" OCP_NAME, &body, 400, 20000);
}
