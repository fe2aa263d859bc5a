// IpoptInterface over a transcribed optimal control problem, dense or sparse (see ocp.hpp for the -D).
#define OC_DEFAULT_SPEC 1
#include "ocp.hpp"
#include "ipopt_p23.hpp"
#include "solvers/ipopt_interface.hpp"
namespace {
void body(vt::Case& c)
{
    vt::Rng& r = c.rng;
    const oc::Dims n = dims(); const int NV = n.var(), NE = n.ne(), NI = n.ni();
    std::vector<oc::Point> pts = oc::random_points(c, n, 3, false);
    for (auto& p : pts) { p.t0 = 0; p.tf = 1; p.d = pts[0].d; }
    const oc::Spec s = oc::random_spec(c, n, pts, false, 5);
    default_spec() = &s; c.nontrivial(); c.cfg = "lagrange " + s.lag.str() + " mayer " + s.may.str();
    std::unique_ptr<IpoptInterface<TestOcp>> solver(new IpoptInterface<TestOcp>);
    auto truth = [&](int w, const ipt::V& lam, double of, int order) {
        const oc::Ref q = oc::reference(s, pts[w], lam.cast<oc::L>(), of, order); ipt::Truth t;
        t.cost = (double)q.cost; t.c = q.c.cast<double>(); t.tol = 3000 * U_ * q.mag * q.mag * (1 + O_POLY * O_POLY); t.ltol = 10 * t.tol * (1 + lam.norm());
        if (order) { t.grad = q.grad.cast<double>(); t.J = q.J.cast<double>(); } if (order == 2) t.W = q.W.cast<double>(); return t;
    };
    ipt::run(c, *solver, NV, NE, NI, truth, [&](int w) { return ipt::V(Eigen::Map<ipt::V>(pts[w].var.data(), NV)); }, [&](vt::Rng&) { for (int i = 0; i < O_D; ++i) solver->parameters()(i) = pts[0].d[i]; });
}
vt::Reg reg("ipopt_ocp_" OCP_NAME, body, 120, 6000);
}
