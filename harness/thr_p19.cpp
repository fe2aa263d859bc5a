// Driver of the isolation monitor (see thr.hpp).
#include "thr.hpp"
#include <thread>
#include <atomic>
using namespace thr;
namespace {
struct Plan { size_t kind; uint64_t seed; };
std::unique_ptr<Stepper> make(const Plan& p) { vt::Rng r(p.seed); return kinds()[p.kind].make(r); }
std::vector<double> alone(const Plan& p) { auto s = make(p); s->begin(); for (int k = 0; k < STEPS; ++k) s->step(k); return s->out; }
bool same(const std::vector<double>& a, const std::vector<double>& b) { return a.size() == b.size() && (a.empty() || !std::memcmp(a.data(), b.data(), a.size() * sizeof(double))); }
void compare(vt::Case& c, const Plan& p, const std::vector<double>& got, const char* how)
{
    const auto want = alone(p); size_t i = 0; while (i < got.size() && i < want.size() && !std::memcmp(&got[i], &want[i], 8)) ++i;
    c.event(std::string(how) + "." + kinds()[p.kind].name); c.event("values", (long)got.size());
    c.check(same(got, want), std::string(how) + "/" + kinds()[p.kind].name, vt::fmt("%zu values, %zu alone, first difference at %zu", got.size(), want.size(), i));
}
void threads(vt::Case& c)
{
    vt::Rng& r = c.rng; const int T = r.range(2, 4); c.nontrivial();
    // either every thread runs the same kind (one shared static suffices) or a mixture; sometimes the very same problem
    const bool mixed = r.chance(0.3), twins = r.chance(0.2); const size_t kind = c.idx % kinds().size(); const uint64_t sd = r.next();
    std::vector<Plan> plan; std::vector<std::unique_ptr<Stepper>> obj;
    for (int t = 0; t < 2 * T; ++t) { plan.push_back({mixed ? (size_t)r.range(0, (int)kinds().size() - 1) : kind, twins ? sd : r.next()}); if (twins) plan.back().kind = kind; obj.push_back(make(plan.back())); }
    c.cfg = vt::fmt("threads=%d %s%s%s", T, kinds()[kind].name.c_str(), mixed ? " mixed" : "", twins ? " twins" : ""); c.mixin(sd);
    std::atomic<int> ready(0); std::atomic<long> overlap(0), busy(0); std::vector<std::thread> th;
    for (int t = 0; t < T; ++t)
        th.emplace_back([&, t]() {
            ready.fetch_add(1, std::memory_order_relaxed); while (ready.load(std::memory_order_relaxed) < T) std::this_thread::yield();
            Stepper *a = obj[2 * t].get(), *b = obj[2 * t + 1].get(); a->begin(); b->begin(); // two objects in each thread
            for (int k = 0; k < STEPS; ++k)
            {
                if (busy.fetch_add(1, std::memory_order_relaxed) > 0) overlap.fetch_add(1, std::memory_order_relaxed);
                a->step(k); b->step(k); busy.fetch_sub(1, std::memory_order_relaxed);
            }
        });
    for (auto& t : th) t.join();
    c.event("thread_steps", 2 * T * STEPS); c.event("overlapping_steps", overlap.load());
    for (int t = 0; t < 2 * T; ++t) compare(c, plan[t], obj[t]->out, "threaded");
}
void interleaved(vt::Case& c)
{
    vt::Rng& r = c.rng; c.nontrivial(); const size_t kind = c.idx % kinds().size(); const bool mixed = r.chance(0.3);
    std::vector<Plan> plan; std::vector<std::unique_ptr<Stepper>> obj; std::vector<int> at(3, -1);
    for (int t = 0; t < 3; ++t) { plan.push_back({mixed ? (size_t)r.range(0, (int)kinds().size() - 1) : kind, r.next()}); obj.push_back(make(plan.back())); }
    c.cfg = kinds()[kind].name + (mixed ? " mixed" : ""); c.mixin(plan[0].seed);
    for (int left = 3 * (STEPS + 1); left > 0;) { const int t = r.range(0, 2); if (at[t] >= STEPS) continue; if (at[t] < 0) obj[t]->begin(); else obj[t]->step(at[t]); ++at[t]; --left; }
    for (int t = 0; t < 3; ++t) compare(c, plan[t], obj[t]->out, "interleaved");
    // destroying one object leaves the others usable and a new one unaffected
    obj[0].reset(); compare(c, plan[1], alone(plan[1]), "again");
}
vt::Reg r1("threads", threads, 300, 20000), r2("interleaved", interleaved, 400, 20000);
}
