// LSFilter against a reference model of a filter.
#include <cstddef>
#include "solvers/line_search.hpp"
#include "vt.hpp"
#include <vector>
namespace {
struct P { double c, v; };
template <class F> void body(vt::Case& c)
{
    vt::Rng& r = c.rng;
    LSFilter<F> f;
    f.max_depth = r.pick(std::vector<int>{10, 10, 1, 2, 3, 5}); f.beta = (F)r.pick(std::vector<double>{1e-5, 1e-5, 0, 0.1});
    const int lattice = r.chance(0.5) ? r.range(2, 6) : 0; // many exact ties
    auto num = [&]() { return (double)(F)(lattice ? r.range(0, lattice) : r.uniform(-2, 10)); };
    auto viol = [&]() { return (double)(F)(lattice ? r.range(0, lattice) : r.chance(0.2) ? 0 : r.logu(1e-6, 10)); };
    std::vector<P> hist;                        // additions since the last clear, newest last
    c.cfg = vt::fmt("depth=%d beta=%g lattice=%d", f.max_depth, (double)f.beta, lattice); c.nontrivial();
    const int n = r.range(5, 60);
    for (int k = 0; k < n; ++k)
    {
        const int op = r.range(0, 11);
        const double a = num(), b = viol(); c.mixin(a); c.mixin(b); c.mixin((uint64_t)op);
        if (op <= 5 && (op <= 2 || f.is_acceptable((F)a, (F)b)))
        {
            const std::vector<std::pair<F, F>> before(f.m_filter.begin(), f.m_filter.end());
            f.add((F)a, (F)b); hist.push_back({a, b}); c.event("add");
            std::vector<std::pair<F, F>> after(f.m_filter.begin(), f.m_filter.end());
            if (!c.check((long)after.size() <= f.max_depth, "filter/size", vt::fmt("%zu entries", after.size()))) return;
            bool in = false; for (auto& e : after) in |= e.first == (F)a && e.second == (F)b;
            if (!c.check(in, "filter/added-point-missing")) return;
            // nothing is invented, and nothing is lost except dominated points or, when full, the oldest one
            int lost = 0;
            for (auto& e : after) { bool known = e.first == (F)a && e.second == (F)b; for (auto& o : before) known |= o == e; if (!c.check(known, "filter/invented-entry")) return; }
            for (auto& o : before)
            {
                bool kept = false; for (auto& e : after) kept |= e == o;
                if (kept) continue;
                if (o.first >= (F)a && o.second >= (F)b) { c.event("pruned"); continue; }
                ++lost; c.event("evicted");
                c.check((long)before.size() == f.max_depth && o == before.back(), "filter/wrong-entry-dropped");
            }
            c.check(lost <= 1, "filter/too-many-dropped");
            if ((long)before.size() < f.max_depth) // while there is room, the points the new one dominates are removed
            {
                size_t dup = 0; for (auto& e : after) dup += e.first >= (F)a && e.second >= (F)b;
                c.check(dup == 1, "filter/dominated-entry-kept");
            }
            if (!c.check(f.is_dominated((F)a, (F)b) && !f.is_acceptable((F)a, (F)b), "filter/added-point-not-blocked")) return;
        }
        else if (op == 11 && r.chance(0.15)) { f.clear(); hist.clear(); c.event("clear"); c.check(f.m_filter.empty() && f.is_acceptable((F)a, (F)b) && !f.is_dominated((F)a, (F)b), "filter/clear"); }
        else if (op == 10 && !f.m_filter.empty() && r.chance(0.2)) { const size_t m = f.m_filter.size(); f.remove_one(); c.event("remove"); c.check(f.m_filter.size() == m - 1, "filter/remove"); hist.clear(); for (auto it = f.m_filter.rbegin(); it != f.m_filter.rend(); ++it) hist.push_back({(double)it->first, (double)it->second}); }
        // queries
        for (int q = 0; q < 3; ++q)
        {
            const double qc = num(), qv = viol();
            bool dom = false, blocked = false;
            for (auto& e : f.m_filter) { dom |= e.first <= (F)qc && e.second <= (F)qv; const F m = f.beta * e.second; blocked |= (F)(e.first - m) <= (F)qc && (F)(e.second - m) <= (F)qv; }
            c.event(dom ? "dominated" : blocked ? "blocked_by_margin" : "free");
            if (!c.check(f.is_dominated((F)qc, (F)qv) == dom, "filter/is_dominated")) return;
            // the margin comparison is decided up to rounding of the margin itself
            bool sure = true;
            for (auto& e : f.m_filter) { const double m = (double)f.beta * e.second, u = 1e-6 * (std::fabs(e.first) + std::fabs(e.second) + 1); if (std::fabs(e.first - m - qc) < (sizeof(F) == 4 ? u : u * 1e-9) && f.beta != 0) sure = false; if (std::fabs(e.second - m - qv) < (sizeof(F) == 4 ? u : u * 1e-9) && f.beta != 0) sure = false; }
            if (sure && !c.check(f.is_acceptable((F)qc, (F)qv) == !blocked, "filter/is_acceptable")) return;
            if (dom) c.check(!f.is_acceptable((F)qc, (F)qv), "filter/dominated-but-acceptable");
            // history: the last max_depth additions keep blocking whatever they dominate
            for (size_t h = hist.size() > (size_t)f.max_depth ? hist.size() - f.max_depth : 0; h < hist.size(); ++h)
                if (hist[h].c <= qc && hist[h].v <= qv) { c.event("history_block"); if (!c.check(f.is_dominated((F)qc, (F)qv), "filter/forgot-recent-point")) return; }
        }
    }
}
vt::Reg rd("filter_double", body<double>, 20000, 1000000), rf("filter_float", body<float>, 10000, 500000);
}
