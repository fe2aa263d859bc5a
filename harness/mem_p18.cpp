// Fixed-size dense controllers: no heap traffic once constructed.
#include "vt.hpp"
static bool g_armed = false; static long g_allocs = 0; static size_t g_bytes = 0; static bool g_trap = false;
#define EX_STACK 96
#include "mpc.hpp"
#include <sanitizer/common_interface_defs.h>
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*));
namespace {
typedef Eigen::MatrixXd M;
void on_malloc(const volatile void*, size_t n) { if (g_armed) { ++g_allocs; g_bytes += n; if (g_trap) { g_armed = false; __sanitizer_print_stack_trace(); g_armed = true; } } }
void on_free(const volatile void*) {}
struct Install { Install() { if (!__sanitizer_install_malloc_and_free_hooks(&on_malloc, &on_free)) abort(); g_trap = getenv("P18_TRACE"); } } install;
const oc::Dims n = dims();
const int N = TestOcp::NUM_NODES;
// self-test: a known allocation is seen
bool counts() { g_allocs = 0; g_armed = true; void* volatile p = malloc(64); g_armed = false; free(p); return g_allocs == 1; }
struct Watch
{
    vt::Case& c; const char* what;
    Watch(vt::Case& c_, const char* w) : c(c_), what(w) { g_allocs = 0; g_bytes = 0; g_armed = true; }
    ~Watch() { g_armed = false; c.event(what); c.check(g_allocs == 0, std::string("heap/") + what, vt::fmt("%ld allocations, %zu bytes", g_allocs, g_bytes)); }
};
void body(vt::Case& c)
{
    vt::Rng& r = c.rng; c.nontrivial();
    if (!c.check(counts(), "self-test")) return;
    c.event("self_test");
    MpcMem mem(0); Mpc& m = *mem.c;
    const mp::Lq q = mp::lq(r, n, r.chance(0.5) ? 0 : 0.3, SINGLE); m.ocp().s = &q.s;
    m.settings().max_iter = r.range(1, 8); m.qp_settings().max_iter = r.pick(std::vector<int>{50, 300}); if (SINGLE) m.qp_settings().sigma = (F)1e-3;
    m.qp_settings().adaptive_rho = r.chance(0.7);
    typename Mpc::state_t x0, xl, xu; typename Mpc::control_t ul, uu; typename Mpc::static_param d; typename Mpc::parameter_t pl, pu; typename Mpc::constraint_t gl, gu;
    ul.setConstant((F)-2); uu.setConstant((F)2); xl.setConstant((F)-5); xu.setConstant((F)5); pl.setConstant((F)-1); pu.setConstant((F)1); gl.setConstant((F)-9); gu.setConstant((F)9); d.setConstant((F)r.uniform(-1, 1));
    F t0 = 0; long iters = 0;
    for (int k = 0; k < 4; ++k)
    {
        for (int i = 0; i < O_X; ++i) x0(i) = (F)r.uniform(-1, 1);
        c.mixin((double)x0(0)); c.cfg = vt::fmt("solve %d", k);
        const F tf = t0 + (F)r.uniform(0.5, 2);
        { Watch w(c, "setters"); m.initial_conditions(x0); m.state_bounds(xl, xu); m.final_state_bounds(xl, xu); m.x_lower_bound(xl); m.x_upper_bound(xu); m.control_bounds(ul, uu); m.u_lower_bound(ul); m.u_upper_bound(uu); m.set_static_parameters(d);
#if O_P
          m.parameters_bounds(pl, pu);
#endif
#if O_G
          m.constraints_bounds(gl, gu);
#endif
        }
        { Watch w(c, "ocp().set_time_limits"); m.ocp().set_time_limits(t0, tf); }
        { Watch w(c, "mpc.set_time_limits"); m.set_time_limits(t0, tf); }
        { Watch w(c, k ? "solve" : "first-solve"); m.solve(); }
        iters += m.info().iter; c.event("qp_iterations", m.info().qp_solver_iter); c.event("sqp_iterations", m.info().iter); if (m.qp_settings().adaptive_rho) c.event("rho_updates", m.solver().m_qp_solver.info().rho_updates);
        F acc = 0;
        { Watch w(c, "getters"); acc += m.solution_x().sum() + m.solution_u().sum() + m.solution_dual().sum() + m.solution_x_reshaped().sum() + m.solution_u_reshaped().sum() + m.solution_x_at(1).sum() + m.solution_u_at(1).sum() + m.cost() + m.primal_norm() + m.dual_norm() + m.constr_violation(); }
        { Watch w(c, "interpolation"); acc += m.solution_x_at(t0 + (F)0.1).sum() + m.solution_u_at(t0 + (F)0.1).sum(); }
        { Watch w(c, "guess"); const typename Mpc::traj_state_t xg = m.solution_x(); const typename Mpc::traj_control_t ug = m.solution_u(); const typename Mpc::dual_var_t lg = m.solution_dual(); m.x_guess(xg); m.u_guess(ug); m.lam_guess(lg); }
        { Watch w(c, "sensitivities");
          typename TestOcp::nlp_variable_t x = m.solver().primal_solution(), g, lg; typename TestOcp::nlp_dual_t lam = m.solution_dual(); typename TestOcp::nlp_constraints_t b; typename TestOcp::nlp_jacobian_t A; typename TestOcp::nlp_hessian_t H; F L;
          m.ocp().lagrangian_gradient_hessian(x, d, lam, L, lg, H, g, b, A); m.ocp().lagrangian_gradient(x, d, lam, L, lg, g, b, A); m.ocp().cost(x, d, L); m.ocp().constraints(x, d, b); m.ocp().lagrangian(x, d, lam, L); acc += L; }
        { Watch w(c, "bfgs"); typename TestOcp::nlp_hessian_t H = TestOcp::nlp_hessian_t::Identity(); typename TestOcp::nlp_variable_t s = TestOcp::nlp_variable_t::Constant((F)0.3), y = TestOcp::nlp_variable_t::Constant((F)0.2); BFGS_update(H, s, y); acc += H(0, 0); }
        c.mixin((double)acc); t0 += (F)r.uniform(0, 0.3);
    }
}
vt::Reg reg("noheap_" OCP_NAME, &body, 100, 5000);
}
