// Controllers (dense or sparse, see mpc.hpp) for the isolation monitor.
#include "thr.hpp"
#include "mpc.hpp"
namespace {
const oc::Dims n = dims();
struct C : thr::Stepper
{
    mp::Lq q; double x0[thr::STEPS][O_X], t0[thr::STEPS], tf[thr::STEPS], d, at[thr::STEPS]; int imax[thr::STEPS], qmax; bool adapt, dead = false; std::unique_ptr<MpcMem> m;
    explicit C(vt::Rng& r) : q(mp::lq(r, n, r.chance(0.5) ? 0 : 0.3, SINGLE))
    {
        for (int k = 0; k < thr::STEPS; ++k) { for (auto& v : x0[k]) v = r.uniform(-1, 1); t0[k] = r.chance(0.5) ? 0.0 : r.uniform(-1, 1); tf[k] = t0[k] + r.uniform(0.5, 2); imax[k] = r.range(1, 6); at[k] = r.unit(); }
        d = r.uniform(-1, 1); qmax = r.range(100, 500); adapt = r.chance(0.5);
    }
    void begin() override { m.reset(new MpcMem(0)); m->c->ocp().s = &q.s; m->c->qp_settings().max_iter = qmax; m->c->qp_settings().adaptive_rho = adapt; if (SINGLE) m->c->qp_settings().sigma = (F)1e-3; }
    void step(int k) override
    {
        if (dead) return; // a diverging run is abandoned before it overflows
        Mpc& c = *m->c; typename Mpc::state_t x, xl, xu; typename Mpc::control_t ul, uu; xl.setConstant((F)-5); xu.setConstant((F)5); ul.setConstant((F)-2); uu.setConstant((F)2);
        for (int i = 0; i < O_X; ++i) x(i) = (F)x0[k][i];
        c.set_time_limits((F)t0[k], (F)tf[k]); c.state_bounds(xl, xu); c.final_state_bounds(xl, xu); c.initial_conditions(x); c.control_bounds(ul, uu);
#if O_P
        typename Mpc::parameter_t pl, pu; pl.setConstant((F)-1); pu.setConstant((F)1); c.parameters_bounds(pl, pu);
#endif
#if O_G
        typename Mpc::constraint_t gl, gu; gl.setConstant((F)-9); gu.setConstant((F)9); c.constraints_bounds(gl, gu);
#endif
#if O_D
        typename Mpc::static_param sd; sd.setConstant((F)d); c.set_static_parameters(sd);
#endif
        c.settings().max_iter = imax[k]; c.solver().tr = Trace();
        c.solve(); if (c.solver().tr.runaway || !(c.solution_x().norm() < 100) || !(c.solution_dual().norm() < 1e3)) dead = true;
        put(c.solution_x()); put(c.solution_u()); put(c.solution_dual()); put(c.info().iter); put(c.info().qp_solver_iter); put(c.info().status.value); put(c.cost()); put(c.constr_violation());
        const F t = (F)(t0[k] + at[k] * (tf[k] - t0[k])); put(c.solution_x_at(t)); put(c.solution_u_at(t)); put(c.ocp().time_nodes);
        // the problem class on its own
        typename TestOcp::nlp_variable_t v = c.solver().primal_solution(); typename TestOcp::nlp_constraints_t b; typename TestOcp::static_parameter_t pp; pp.setConstant((F)d); F cost; typename TestOcp::nlp_variable_t g;
        c.ocp().cost(v, pp, cost); put(cost); c.ocp().constraints(v, pp, b); put(b); c.ocp().cost_gradient(v, pp, cost, g); put(g);
    }
};
thr::Add a("mpc_" OCP_NAME, thr::mk<C>);
}
