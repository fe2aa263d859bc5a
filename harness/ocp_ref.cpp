#include "ocp_ref.hpp"
namespace oc {
static const L PI = 3.14159265358979323846264338327950288L;
std::vector<L> cheb_nodes(int P) { std::vector<L> x(P + 1); for (int i = 0; i <= P; ++i) x[i] = std::cos(PI * i / P); x[0] = 1; x[P] = -1; if (P % 2 == 0) x[P / 2] = 0; return x; }
static std::vector<L> weights(const std::vector<L>& x) // exact integrals of the Lagrange basis
{
    std::vector<L> w;
    for (size_t i = 0; i < x.size(); ++i)
    {
        std::vector<L> p(1, 1); L d = 1;
        for (size_t j = 0; j < x.size(); ++j) if (j != i)
        {
            std::vector<L> q(p.size() + 1, 0);
            for (size_t k = 0; k < p.size(); ++k) { q[k + 1] += p[k]; q[k] -= x[j] * p[k]; }
            p = q; d *= x[i] - x[j];
        }
        L s = 0; for (size_t k = 0; k < p.size(); k += 2) s += 2 * p[k] / (k + 1);
        w.push_back(s / d);
    }
    return w;
}
static ML diff(const std::vector<L>& x)
{
    const int n = x.size(); ML D = ML::Zero(n, n); VL b = VL::Ones(n);
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (i != j) b(i) *= x[i] - x[j];
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (i != j) { D(i, j) = b(i) / b(j) / (x[i] - x[j]); D(i, i) += 1 / (x[i] - x[j]); }
    return D;
}
std::vector<L> times(const Dims& n, double t0, double tf)
{
    std::vector<L> t(n.nodes()), x = cheb_nodes(n.P);
    const L h = ((L)tf - t0) / n.S;
    for (int s = 0; s < n.S; ++s) for (int k = 0; k <= n.P; ++k) t[s * n.P + k] = tf - h * s - h / 2 + h / 2 * x[k]; // segments backwards in time
    return t;
}
static void split(const Dims& n, const Point& p, int k, std::vector<double>& z)
{
    z.clear();
    for (int i = 0; i < n.nx; ++i) z.push_back(p.var[k * n.nx + i]);
    for (int i = 0; i < n.nu; ++i) z.push_back(p.var[n.vx() + k * n.nu + i]);
    for (int i = 0; i < n.np; ++i) z.push_back(p.var[n.vx() + n.vu() + i]);
}
static int at(const Dims& n, int k, int i) { return i < n.nx ? k * n.nx + i : i < n.nx + n.nu ? n.vx() + k * n.nu + i - n.nx : n.vx() + n.vu() + i - n.nx - n.nu; }
Ref reference(const Spec& s, const Point& p, const VL& lam, double cs, int order)
{
    const Dims& n = s.n; const int N = n.nodes(), V = n.var(), nz = n.nx + n.nu + n.np;
    Ref r; r.cost = 0; r.grad = VL::Zero(V); r.c = VL::Zero(n.ne() + n.ni());
    r.J = ML::Zero(n.ne() + n.ni(), order > 0 ? V : 0); r.H = ML::Zero(order > 1 ? V : 0, order > 1 ? V : 0); r.W = r.H;
    static std::map<int, std::pair<std::vector<L>, ML>> cache;
    auto& ca = cache[n.P];
    if (ca.first.empty()) { const std::vector<L> x = cheb_nodes(n.P); ca.first = weights(x); ca.second = diff(x); }
    const std::vector<L>& w = ca.first; const ML& D = ca.second;
    const std::vector<L> t = times(n, p.t0, p.tf);
    const L ts = ((L)p.tf - p.t0) / (2 * n.S);
    r.t = VL::Zero(N); for (int k = 0; k < N; ++k) r.t(k) = t[k];
    L mag = 1; for (double v : p.var) mag = std::max(mag, std::fabs((L)v));
    std::vector<double> z, q;
    auto add = [&](ML& M, const ex::Jet& j, int k, L f) { for (int a = 0; a < nz; ++a) for (int b = 0; b < nz; ++b) M(at(n, k, a), at(n, k, b)) += f * j.h[a * nz + b]; };
    for (int k = 0; k < N; ++k)
    {
        split(n, p, k, z); q = p.d; q.push_back((double)t[k]);
        const int seg = std::min(k / n.P, n.S - 1), loc = k - seg * n.P; // a node shared by two segments is collocated as the start of the next one in storage order
        for (int i = 0; i < n.nx; ++i)
        {
            const ex::Jet j = ex::jet(s.f[i], z, q, &mag);
            const int row = k * n.nx + i;
            r.c(row) = -ts * j.v;
            for (int m = 0; m <= n.P; ++m)
            {
                const int col = (seg * n.P + m) * n.nx + i;
                r.c(row) += D(loc, m) * p.var[col];
                if (order > 0) r.J(row, col) += D(loc, m);
            }
            if (order > 0) for (int a = 0; a < nz; ++a) r.J(row, at(n, k, a)) -= ts * j.g[a];
            if (order > 1 && lam.size()) add(r.W, j, k, -ts * lam(row));
        }
        for (int i = 0; i < n.ng; ++i)
        {
            const ex::Jet j = ex::jet(s.g[i], z, q, &mag);
            const int row = n.ne() + k * n.ng + i;
            r.c(row) = j.v;
            if (order > 0) for (int a = 0; a < nz; ++a) r.J(row, at(n, k, a)) += j.g[a];
            if (order > 1 && lam.size()) add(r.W, j, k, lam(row));
        }
        L wk = 0; // a shared node carries the weights of both segments
        for (int sg = 0; sg < n.S; ++sg) if (k >= sg * n.P && k <= (sg + 1) * n.P) wk += w[k - sg * n.P];
        for (int part = 0; part < 2; ++part)
        {
            if (part == 0 ? !n.lag : (!n.may || k != 0)) continue;
            const ex::Jet j = ex::jet(part ? s.may : s.lag, z, q, &mag);
            const L f = part ? 1 : ts * wk;
            r.cost += f * j.v;
            if (order > 0) for (int a = 0; a < nz; ++a) r.grad(at(n, k, a)) += f * j.g[a];
            if (order > 1) add(r.H, j, k, f);
        }
    }
    if (order > 1) r.W += cs * r.H;
    r.mag = (double)mag;
    return r;
}
std::vector<Point> random_points(vt::Case& c, const Dims& n, int count, bool single)
{
    vt::Rng& r = c.rng; std::vector<Point> v(count);
    auto rd = [&](double x) { return single ? (double)(float)x : x; };
    for (auto& p : v)
    {
        const int kind = r.range(0, 3);
        for (int i = 0; i < n.var(); ++i) p.var.push_back(rd(kind == 0 && r.chance(0.5) ? 0 : r.uniform(-2, 2)));
        for (int i = 0; i < n.nd; ++i) p.d.push_back(rd(r.uniform(-2, 2)));
    }
    // later points often differ from the first one in a single place only
    for (size_t k = 1; k < v.size(); ++k)
    {
        const int like = r.range(0, 5);
        if (like == 0) { v[k].var = v[0].var; c.event("points_share_variables"); }
        else if (like == 1) { v[k] = v[0]; const int i = r.range(0, n.var() - 1); v[k].var[i] = rd(r.uniform(-2, 2)); c.event("points_differ_in_one_variable"); }
        else if (like == 2) { v[k].d = v[0].d; c.event("points_share_parameters"); }
    }
    // time windows: the default one, another one, the same length elsewhere, the same start or end
    const double a = rd(r.uniform(-2, 2)), b = rd(a + r.logu(0.05, 5));
    for (size_t k = 0; k < v.size(); ++k)
    {
        Point& p = v[k]; const int w = r.range(0, k ? 6 : 1);
        p.t0 = a; p.tf = b;
        if (w <= 1) { p.t0 = w ? a : 0; p.tf = w ? b : 1; }
        else if (w == 2) { p.t0 = v[0].t0; p.tf = v[0].tf; }
        else if (w == 3) { const double sh = rd(r.uniform(-1, 1)); p.t0 = rd(v[0].t0 + sh); p.tf = rd(v[0].tf + sh); }
        else if (w == 4) { p.t0 = v[0].t0; p.tf = rd(p.t0 + r.logu(0.05, 5)); }
        else if (w == 5) { p.tf = v[0].tf; p.t0 = rd(p.tf - r.logu(0.05, 5)); }
    }
    for (auto& p : v) { for (double x : p.var) c.mixin(x); c.mixin(p.tf); }
    return v;
}
Spec random_spec(vt::Case& c, const Dims& n, const std::vector<Point>& pts, bool single, int maxlen)
{
    std::vector<std::vector<double>> xs, ps; std::vector<double> z;
    for (auto& p : pts) for (int k = 0; k < n.nodes(); ++k)
        for (int w = 0; w < 2; ++w)
        {   // every point may be evaluated in every window
            if (w && pts[0].tf == p.tf && pts[0].t0 == p.t0) continue;
            split(n, p, k, z); xs.push_back(z);
            const Point& q = w ? pts[0] : p;
            z = p.d; z.push_back((double)times(n, q.t0, q.tf)[k]); ps.push_back(z);
        }
    Spec s; s.n = n;
    auto prog = [&]() { ex::Prog p = ex::random_prog(c.rng, n.nx + n.nu + n.np, n.nd + 1, c.rng.range(1, maxlen), xs, ps); if (single) for (auto& k : p.n) k.c = (double)(float)k.c;
        for (auto& k : p.n) c.mixin((uint64_t)(k.op * 1000 + k.a * 31 + k.b)); if (p.constant) c.event("constant_function"); return p; };
    for (int i = 0; i < n.nx; ++i) s.f.push_back(prog());
    for (int i = 0; i < n.ng; ++i) s.g.push_back(prog());
    s.lag = prog(); s.may = prog();
    return s;
}
}
