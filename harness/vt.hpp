// Tiny framework shared by all monitors: deterministic case generation, oracle bookkeeping, replay.
#ifndef VT_HPP
#define VT_HPP
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <cstdarg>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <algorithm>
#include <fcntl.h>
#include <unistd.h>
#include <sys/mman.h>

#if defined(__has_feature)
#if __has_feature(memory_sanitizer)
#define VT_MSAN 1
#include <sanitizer/msan_interface.h>
#endif
#if __has_feature(address_sanitizer)
#define VT_ASAN 1
#endif
#endif
#ifdef __SANITIZE_ADDRESS__
#define VT_ASAN 1
#endif
#ifdef VT_ASAN
#include <sanitizer/asan_interface.h>
#endif

namespace vt {

// ---------------------------------------------------------------- random numbers
struct Rng
{
    uint64_t s[4];
    static uint64_t mix(uint64_t& x)
    {
        x += 0x9e3779b97f4a7c15ULL;
        uint64_t z = x;
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
        return z ^ (z >> 31);
    }
    __attribute__((no_sanitize("undefined"))) explicit Rng(uint64_t seed = 1) { for (auto& v : s) v = mix(seed); }
    static uint64_t rotl(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }
    uint64_t next()
    {
        const uint64_t r = rotl(s[1] * 5, 7) * 9, t = s[1] << 17;
        s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = rotl(s[3], 45);
        return r;
    }
    double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
    double uniform(double a, double b) { return a + (b - a) * unit(); }
    int range(int a, int b) { return a + (int)(next() % (uint64_t)(b - a + 1)); } // inclusive
    bool chance(double p) { return unit() < p; }
    double normal()
    {
        double u = unit(), v = unit();
        if (u < 1e-300) u = 1e-300;
        return std::sqrt(-2 * std::log(u)) * std::cos(6.283185307179586 * v);
    }
    double logu(double a, double b) { return std::exp(uniform(std::log(a), std::log(b))); }
    double sign() { return chance(0.5) ? 1.0 : -1.0; }
    template <class T> const T& pick(const std::vector<T>& v) { return v[next() % v.size()]; }
};

inline std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
inline std::string fmt(const char* f, ...)
{
    char b[4096];
    va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a);
    return b;
}

inline std::string json(const std::string& s)
{
    std::string o = "\"";
    for (unsigned char c : s)
    {
        if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
        else if (c < 32 || c > 126) o += fmt("\\u%04x", c);
        else o += (char)c;
    }
    return o + "\"";
}

struct Global
{
    long evaluations = 0, nontrivial = 0, checks = 0, violations = 0;
    std::map<std::string, long> events;
    std::map<std::string, double> maxima;
    std::map<std::string, long> per_key;
    std::vector<std::string> samples;
    std::vector<uint64_t> digests;
    FILE* out = nullptr;
};
inline Global& G() { static Global g; return g; }

// memory an object is about to be built in: a chosen content, and uninitialised for MemorySanitizer
inline void dirty(void* p, int fill, size_t n)
{
    std::memset(p, fill, n);
#ifdef VT_MSAN
    __msan_poison(p, n); ++G().events["objects_in_poisoned_memory"];
#endif
}

// the sanitizer this binary was built for is really watching
inline void armed()
{
#ifdef VT_MSAN
    double* volatile p = (double*)std::malloc(64);
    if (__msan_test_shadow(p, 64) == 0) ++G().events["msan_armed"];
    std::free(p);
#endif
#ifdef VT_ASAN
    char* volatile p = (char*)std::malloc(64);
    if (__asan_address_is_poisoned(p + 64) && !__asan_address_is_poisoned(p + 63)) ++G().events["asan_armed"];
    std::free(p);
#endif
}

// ---------------------------------------------------------------- one case
struct Case
{
    Rng rng;
    const char* family;
    long idx;
    uint64_t seed;
    std::string cfg;              // human readable configuration of the case
    bool nontriv = false;
    uint64_t dig = 1469598103934665603ULL;
    Case(const char* f, long i, uint64_t sd) : rng(sd * 0x9e3779b97f4a7c15ULL ^ hash(f) ^ ((uint64_t)i * 0xd1342543de82ef95ULL)), family(f), idx(i), seed(sd) {}
    __attribute__((no_sanitize("undefined"))) static uint64_t hash(const char* p) { uint64_t h = 1469598103934665603ULL; for (; *p; ++p) h = (h ^ (unsigned char)*p) * 1099511628211ULL; return h; }
    void mixin(uint64_t v) { dig = (dig ^ v) * 1099511628211ULL; dig ^= dig >> 29; }
    void mixin(double v) { uint64_t u; std::memcpy(&u, &v, 8); mixin(u); }
    template <class M> void mixm(const M& m) { for (long j = 0; j < (long)m.cols(); ++j) for (long i = 0; i < (long)m.rows(); ++i) mixin((double)m(i, j)); }
    void event(const std::string& e, long n = 1) { G().events[e] += n; }
    void maximum(const std::string& k, double v) { auto& m = G().maxima; auto it = m.find(k); if (it == m.end() || v > it->second) m[k] = v; }
    void nontrivial() { nontriv = true; }
    void fail(const std::string& key, const std::string& detail)
    {
        Global& g = G();
        ++g.violations;
        long& n = g.per_key[key];
        if (++n <= 3 && g.out)
        {
            fprintf(g.out, "{\"violation\":%s,\"family\":%s,\"case\":%ld,\"seed\":%llu,\"cfg\":%s,\"detail\":%s}\n", json(key).c_str(), json(family).c_str(), idx,
                    (unsigned long long)seed, json(cfg).c_str(), json(detail).c_str());
            fflush(g.out);
        }
        if (getenv("VT_VERBOSE")) fprintf(stderr, "FAIL %s case %ld [%s]: %s\n", key.c_str(), idx, cfg.c_str(), detail.c_str());
    }
    // oracle decision point: counted so that a run which decided nothing is visible
    bool check(bool ok, const std::string& key, const std::string& detail = "")
    {
        ++G().checks;
        if (!ok) fail(key, detail);
        return ok;
    }
    // |a-b| <= tol, and NaN never passes
    bool near(double a, double b, double tol, const std::string& key, const char* what = "")
    {
        ++G().checks;
        double d = std::fabs(a - b);
        if (!(d <= tol)) { fail(key, fmt("%s: got %.17g expected %.17g |diff| %.3g > tol %.3g", what, a, b, d, tol)); return false; }
        return true;
    }
    bool le(double a, double bound, const std::string& key, const char* what = "")
    {
        ++G().checks;
        if (!(a <= bound)) { fail(key, fmt("%s: %.17g > %.17g", what, a, bound)); return false; }
        return true;
    }
    template <class A, class B>
    bool nearm(const A& a, const B& b, double tol, const std::string& key, const char* what = "")
    {
        ++G().checks;
        if ((long)a.rows() != (long)b.rows() || (long)a.cols() != (long)b.cols()) { fail(key, fmt("%s: size %ldx%ld vs %ldx%ld", what, (long)a.rows(), (long)a.cols(), (long)b.rows(), (long)b.cols())); return false; }
        double worst = 0; long wi = -1, wj = -1;
        for (long j = 0; j < (long)a.cols(); ++j)
            for (long i = 0; i < (long)a.rows(); ++i)
            {
                double d = std::fabs((double)a(i, j) - (double)b(i, j));
                if (!(d <= tol)) { if (wi < 0 || !(d <= worst)) { worst = d; wi = i; wj = j; } }
            }
        if (wi >= 0) { fail(key, fmt("%s(%ld,%ld): got %.17g expected %.17g |diff| %.3g > tol %.3g", what, wi, wj, (double)a(wi, wj), (double)b(wi, wj), worst, tol)); return false; }
        return true;
    }
};

// ---------------------------------------------------------------- registry
using Fn = void (*)(Case&);
struct Family { const char* name; Fn fn; long quick, thorough; };
inline std::vector<Family>& families() { static std::vector<Family> v; return v; }
struct Reg { Reg(const char* n, Fn f, long q, long t) { families().push_back({n, f, q, t}); } };

#define VT_FAMILY(NAME, QUICK, THOROUGH)                                     \
    static void vt_fam_##NAME(vt::Case&);                                    \
    static vt::Reg vt_reg_##NAME(#NAME, &vt_fam_##NAME, QUICK, THOROUGH);    \
    static void vt_fam_##NAME(vt::Case& c)

// the case being executed, in a shared mapping so that it survives a crash of this process
struct Progress { volatile int64_t cur; volatile int64_t done; };

inline int vt_main(int argc, char** argv)
{
    if (argc >= 2 && !strcmp(argv[1], "--list"))
    {
        for (auto& f : families()) printf("%s %ld %ld\n", f.name, f.quick, f.thorough);
        return 0;
    }
    // --run FAMILY START END SEED OUTPREFIX
    if (argc < 7 || strcmp(argv[1], "--run")) { fprintf(stderr, "usage: --list | --run FAMILY START END SEED OUT\n"); return 2; }
    const Family* fam = nullptr;
    for (auto& f : families()) if (!strcmp(f.name, argv[2])) fam = &f;
    if (!fam) { fprintf(stderr, "no family %s\n", argv[2]); return 2; }
    long a = atol(argv[3]), b = atol(argv[4]);
    uint64_t seed = strtoull(argv[5], nullptr, 10);
    std::string out = argv[6];
    Global& g = G();
    g.out = fopen((out + ".jsonl").c_str(), "w");
    int fd = open((out + ".cur").c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600);
    if (!g.out || fd < 0 || ftruncate(fd, sizeof(Progress))) return 2;
    Progress* pr = (Progress*)mmap(nullptr, sizeof(Progress), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    if (pr == MAP_FAILED) return 2;
    pr->cur = -1; pr->done = 0;
    armed();
    std::set<uint64_t> seen;
    for (long i = a; i < b; ++i)
    {
        pr->cur = i;
        Case c(fam->name, i, seed);
        fam->fn(c);
        ++g.evaluations;
        if (c.nontriv)
        {
            if (seen.insert(c.dig).second) g.digests.push_back(c.dig);
            ++g.nontrivial;
            if (g.samples.size() < 2 && !c.cfg.empty()) g.samples.push_back(fmt("%s#%ld: ", fam->name, i) + c.cfg);
        }
    }
    std::string ev, mx, sm, vk;
    for (auto& e : g.events) ev += (ev.empty() ? "" : ",") + json(e.first) + ":" + fmt("%ld", e.second);
    for (auto& e : g.maxima) mx += (mx.empty() ? "" : ",") + json(e.first) + ":" + (std::isfinite(e.second) ? fmt("%.6g", e.second) : std::string("1e999"));
    for (auto& e : g.samples) sm += (sm.empty() ? "" : ",") + json(e);
    for (auto& e : g.per_key) vk += (vk.empty() ? "" : ",") + json(e.first) + ":" + fmt("%ld", e.second);
    fprintf(g.out, "{\"summary\":1,\"family\":%s,\"evaluations\":%ld,\"nontrivial\":%ld,\"checks\":%ld,\"violations\":%ld,\"events\":{%s},\"maxima\":{%s},\"keys\":{%s},\"samples\":[%s]}\n",
            json(fam->name).c_str(), g.evaluations, g.nontrivial, g.checks, g.violations, ev.c_str(), mx.c_str(), vk.c_str(), sm.c_str());
    fclose(g.out);
    FILE* df = fopen((out + ".dig").c_str(), "wb");
    if (df) { if (!g.digests.empty()) fwrite(g.digests.data(), 8, g.digests.size(), df); fclose(df); }
    pr->done = 1;
    return 0;
}
} // namespace vt
#endif
