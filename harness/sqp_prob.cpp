#include "sqp_prob.hpp"
namespace sq {
L Fun::val(const VL& x, const VL& p) const
{
    L s = k + x.dot(Q * x) / 2 + lin(p).dot(x);
    for (size_t m = 0; m < w.size(); ++m) s += w[m] * std::exp(a[m].dot(x));
    for (size_t m = 0; m < v.size(); ++m) s += v[m] * std::sin(b[m].dot(x));
    return s;
}
VL Fun::grad(const VL& x, const VL& p) const
{
    VL g = Q * x + lin(p);
    for (size_t m = 0; m < w.size(); ++m) g += w[m] * std::exp(a[m].dot(x)) * a[m];
    for (size_t m = 0; m < v.size(); ++m) g += v[m] * std::cos(b[m].dot(x)) * b[m];
    return g;
}
ML Fun::hess(const VL& x) const
{
    ML h = Q;
    for (size_t m = 0; m < w.size(); ++m) h += w[m] * std::exp(a[m].dot(x)) * a[m] * a[m].transpose();
    for (size_t m = 0; m < v.size(); ++m) h -= v[m] * std::sin(b[m].dot(x)) * b[m] * b[m].transpose();
    return h;
}
VL Data::con(const VL& x) const { VL c(e.size() + g.size()); for (size_t i = 0; i < e.size(); ++i) c(i) = e[i].val(x, p); for (size_t i = 0; i < g.size(); ++i) c(e.size() + i) = g[i].val(x, p); return c; }
ML Data::jac(const VL& x) const { ML c(e.size() + g.size(), n()); for (size_t i = 0; i < e.size(); ++i) c.row(i) = e[i].grad(x, p); for (size_t i = 0; i < g.size(); ++i) c.row(e.size() + i) = g[i].grad(x, p); return c; }
ML Data::lagh(const VL& x, const VL& y) const { ML h = f.hess(x); for (size_t i = 0; i < e.size(); ++i) h += y(i) * e[i].hess(x); for (size_t i = 0; i < g.size(); ++i) h += y(e.size() + i) * g[i].hess(x); return h; }
static void each(const Data& d, const VL& x, L& sum, L& mx)
{
    sum = 0; mx = -INFINITY;
    const VL c = d.con(x); const int ne = (int)d.e.size(), ni = (int)d.g.size();
    auto put = [&](L v) { if (v > 0) sum += v; if (v > mx) mx = v; };
    if (ne) { L m = 0; for (int i = 0; i < ne; ++i) { sum += std::fabs(c(i)); m = std::max(m, std::fabs(c(i))); } mx = m; }
    else mx = 0;
    for (int i = 0; i < ni; ++i) { put(d.lbg(i) - c(ne + i)); put(c(ne + i) - d.ubg(i)); }
    for (int i = 0; i < d.n(); ++i) { put(d.lbx(i) - x(i)); put(x(i) - d.ubx(i)); }
}
L Data::viol1(const VL& x) const { L a, b; each(*this, x, a, b); return a; }
L Data::violinf(const VL& x) const { L a, b; each(*this, x, a, b); return b; }
ML random_psd(vt::Rng& r, int n, L lo, L hi)
{
    ML G(n, n); for (int i = 0; i < n * n; ++i) G.data()[i] = r.normal();
    ML q = Eigen::HouseholderQR<ML>(G).householderQ(); VL d(n);
    for (int i = 0; i < n; ++i) d(i) = lo > 0 ? (L)r.logu((double)lo, (double)hi) : (L)r.uniform((double)lo, (double)hi);
    ML B = q * d.asDiagonal() * q.transpose();
    return (B + B.transpose()) / 2;
}
// every coefficient is a float, so that all precisions evaluate the same function
static void round_fun(Fun& f)
{
    auto R = [](L v) { return (L)(float)v; };
    for (long i = 0; i < f.Q.size(); ++i) f.Q.data()[i] = R(f.Q.data()[i]);
    f.Q = (f.Q + f.Q.transpose()).eval() / 2;
    for (long i = 0; i < f.c.size(); ++i) f.c(i) = R(f.c(i));
    for (long i = 0; i < f.C.size(); ++i) f.C.data()[i] = R(f.C.data()[i]);
    for (auto& a : f.a) for (long i = 0; i < a.size(); ++i) a(i) = R(a(i));
    for (auto& a : f.b) for (long i = 0; i < a.size(); ++i) a(i) = R(a(i));
    for (auto& a : f.w) a = R(a);
    for (auto& a : f.v) a = R(a);
    f.k = R(f.k);
}
Fun random_fun(vt::Rng& r, int n, int np, int kind, L scale)
{
    Fun f; f.Q = ML::Zero(n, n); f.c.resize(n); f.C = ML::Zero(n, np);
    for (int i = 0; i < n; ++i) f.c(i) = scale * r.normal();
    if (np && r.chance(0.7)) for (long i = 0; i < f.C.size(); ++i) f.C.data()[i] = r.chance(0.5) ? scale * r.normal() : 0;
    if (kind == 1 || kind == 2) f.Q = random_psd(r, n, 0.2, 2) * scale;
    if (kind == 3) f.Q = random_psd(r, n, -2, 2) * scale;
    auto dir = [&](L s) { VL a(n); for (int i = 0; i < n; ++i) a(i) = s * r.normal(); return a; };
    if (kind == 2) { const int m = r.range(1, 2); for (int j = 0; j < m; ++j) { f.a.push_back(dir(0.4L)); f.w.push_back(scale * r.uniform(0.1, 0.5)); } }
    if (kind == 3) { const int m = r.range(1, 2); for (int j = 0; j < m; ++j) { f.b.push_back(dir(1)); f.v.push_back(scale * r.uniform(-1, 1)); } }
    f.k = scale * r.uniform(-1, 1);
    round_fun(f);
    return f;
}
bool planted(vt::Rng& r, int n, int ne, int ni, int np, Planted& o, bool affine)
{
    Data& d = o.d; const L inf = INFINITY;
    d.p.resize(np); for (int i = 0; i < np; ++i) d.p(i) = (L)(float)r.uniform(-1, 1);
    VL x(n); for (int i = 0; i < n; ++i) x(i) = (L)(float)r.uniform(-1.5, 1.5);
    d.f = random_fun(r, n, np, !affine && r.chance(0.5) ? 2 : 1, 1);
    d.e.clear(); d.g.clear(); o.y = VL::Zero(ne + ni + n);
    for (int i = 0; i < ne; ++i) { d.e.push_back(random_fun(r, n, np, 0, 1)); }
    d.lbg = VL::Constant(ni, -inf); d.ubg = VL::Constant(ni, inf); d.lbx = VL::Constant(n, -inf); d.ubx = VL::Constant(n, inf);
    for (int i = 0; i < ni; ++i) d.g.push_back(random_fun(r, n, np, affine ? 0 : r.range(0, 2), 1));
    // values at the solution define the constant of the equalities and the bounds; the cost gradient closes the KKT system
    for (int i = 0; i < ne; ++i) { d.e[i].k -= d.e[i].val(x, d.p); o.y(i) = r.uniform(-2, 2); }
    std::vector<VL> active; for (int i = 0; i < ne; ++i) active.push_back(d.e[i].grad(x, d.p));
    for (int i = 0; i < ni; ++i)
    {
        const L v = d.g[i].val(x, d.p); const bool act = r.chance(0.5) && (int)active.size() < n;
        if (act) { d.ubg(i) = v; o.y(ne + i) = r.uniform(0.3, 2); active.push_back(d.g[i].grad(x, d.p)); }
        else if (r.chance(0.7)) d.ubg(i) = v + r.uniform(0.3, 2);
        if (d.g[i].w.empty() && d.g[i].Q.isZero(0) && r.chance(0.5)) d.lbg(i) = v - r.uniform(0.3, 2); // lower bounds only on affine functions
    }
    for (int i = 0; i < n; ++i)
    {
        const bool act = r.chance(0.25) && (int)active.size() < n; VL ei = VL::Zero(n); ei(i) = 1;
        if (act) { active.push_back(ei); if (r.chance(0.5)) { d.ubx(i) = x(i); o.y(ne + ni + i) = r.uniform(0.3, 2); if (r.chance(0.5)) d.lbx(i) = x(i) - 3; } else { d.lbx(i) = x(i); o.y(ne + ni + i) = -r.uniform(0.3, 2); if (r.chance(0.5)) d.ubx(i) = x(i) + 3; } }
        else { if (r.chance(0.4)) d.ubx(i) = x(i) + r.uniform(0.3, 3); if (r.chance(0.4)) d.lbx(i) = x(i) - r.uniform(0.3, 3); }
    }
    if (!active.empty())
    {
        ML A(active.size(), n); for (size_t i = 0; i < active.size(); ++i) A.row(i) = active[i].transpose() / std::max<L>(active[i].norm(), 1e-3L);
        if (Eigen::JacobiSVD<ML>(A).singularValues().minCoeff() < 0.2L) return false;
    }
    VL g = d.f.grad(x, d.p); const ML J = d.jac(x);
    VL need = -(J.transpose() * o.y.head(ne + ni) + o.y.tail(n));
    d.f.c += need - g;
    o.x = x;
    return true;
}
Data random_data(vt::Rng& r, int n, int ne, int ni, int np)
{
    Data d; const L inf = INFINITY;
    d.p.resize(np); for (int i = 0; i < np; ++i) d.p(i) = (L)(float)r.uniform(-1, 1);
    d.f = random_fun(r, n, np, r.range(0, 3), r.pick(std::vector<double>{1, 1, 1, 10, 0.1}));
    for (int i = 0; i < ne; ++i) d.e.push_back(random_fun(r, n, np, r.pick(std::vector<int>{0, 0, 1, 3}), 1));
    for (int i = 0; i < ni; ++i) d.g.push_back(random_fun(r, n, np, r.range(0, 3), 1));
    d.lbg = VL::Constant(ni, -inf); d.ubg = VL::Constant(ni, inf); d.lbx = VL::Constant(n, -inf); d.ubx = VL::Constant(n, inf);
    for (int i = 0; i < ni; ++i) { if (r.chance(0.6)) d.ubg(i) = (L)(float)r.uniform(-0.5, 3); if (r.chance(0.4)) d.lbg(i) = (L)(float)r.uniform(-4, -1); }
    const bool boxed = r.chance(0.6);
    for (int i = 0; i < n; ++i) { if (boxed || r.chance(0.4)) d.ubx(i) = (L)(float)r.uniform(0.2, 3); if (boxed || r.chance(0.4)) d.lbx(i) = r.chance(0.05) && std::isfinite((double)d.ubx(i)) ? d.ubx(i) : (L)(float)r.uniform(-3, 0); }
    return d;
}
} // namespace sq
