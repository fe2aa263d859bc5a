#include "thr.hpp"
#include "qp.hpp"
namespace {
using namespace qpt;
struct Q : thr::Stepper
{
    const Variant* v; std::vector<Prob> p; std::vector<Sett> s; std::unique_ptr<IQP> q; VectorXd x, y; int fill;
    explicit Q(vt::Rng& r)
    {
        v = &variants()[r.range(0, (int)variants().size() - 1)]; fill = r.range(0, 255);
        GenOpt o; if (v->flt) o.loose_value = 1e15;
        for (int k = 0; k < thr::STEPS; ++k)
        {
            p.push_back(planted(r, v->n, v->m, o)); if (v->flt) round_float(p.back());
            Sett t; t.rho = r.logu(0.05, 2); t.alpha = r.uniform(0.8, 1.8); t.adapt = r.chance(0.5); t.interval = r.range(2, 20); t.check = r.range(1, 25); t.max_iter = r.range(5, 300); t.eps_abs = t.eps_rel = 1e-5; if (v->flt) t.sigma = 1e-3; s.push_back(t);
        }
    }
    void begin() override { q = v->make(fill); }
    void step(int k) override
    {
        q->apply(s[k]); const Res r = k % 2 ? q->solve(p[k], &x, &y) : q->solve(p[k]); x = r.x; y = r.y;
        put(r.x); put(r.y); put(r.rp); put(r.rd); put(r.iter); put(r.st); put(r.rho_updates); put(r.rho_est); put(r.inputs_kept);
    }
};
thr::Add a("qp", thr::mk<Q>);
}
