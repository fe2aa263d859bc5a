#include "mpc_ref.hpp"
namespace mp {
typedef std::vector<std::pair<int, double>> Terms;
static int emit(ex::Prog& p, int op, int a, int b = 0, double c = 0) { p.n.push_back({op, a, b, c}); return (int)p.n.size() - 1; }
static int lin(ex::Prog& p, const Terms& v, const Terms& par, double c0)
{   // c0 + sum v_i z_i + sum par_j q_j
    int acc = emit(p, ex::CST, 0, 0, c0);
    for (auto& t : v) { const int a = emit(p, ex::VAR, t.first), b = emit(p, ex::MULC, a, 0, t.second); acc = emit(p, ex::ADD, acc, b); }
    for (auto& t : par) { const int a = emit(p, ex::PAR, t.first), b = emit(p, ex::MULC, a, 0, t.second); acc = emit(p, ex::ADD, acc, b); }
    return acc;
}
Lq lq(vt::Rng& r, const oc::Dims& n, double nl, bool single)
{
    Lq q; q.s.n = n; q.nl = nl; q.convex = nl == 0;
    auto rd = [&](double x) { return single ? (double)(float)x : x; };
    const int nz = n.nx + n.nu + n.np;
    for (int i = 0; i < n.nx; ++i)
    {
        ex::Prog p; Terms v, d;
        for (int k = 0; k < n.nx; ++k) if (r.chance(0.7)) v.push_back({k, rd(r.uniform(-1, 1) - (k == i ? 0.5 : 0))});
        for (int k = 0; k < n.nu; ++k) if (k == i % std::max(1, n.nu) || r.chance(0.4)) v.push_back({n.nx + k, rd(r.sign() * r.uniform(0.3, 1.5))});
        for (int k = 0; k < n.np; ++k) if (r.chance(0.5)) v.push_back({n.nx + n.nu + k, rd(r.uniform(-1, 1))});
        for (int k = 0; k < n.nd; ++k) if (r.chance(0.5)) d.push_back({k, rd(r.uniform(-0.5, 0.5))});
        if (r.chance(0.3)) d.push_back({n.nd, rd(r.uniform(-0.3, 0.3))}); // time-varying
        int acc = lin(p, v, d, rd(r.uniform(-0.2, 0.2)));
        if (nl > 0) { const int a = emit(p, ex::VAR, r.range(0, n.nx - 1)), s = emit(p, r.chance(0.5) ? ex::SIN : ex::TANH, a), m = emit(p, ex::MULC, s, 0, rd(nl * r.sign())); acc = emit(p, ex::ADD, acc, m); }
        if (nl > 0 && n.nu && r.chance(0.5)) { const int a = emit(p, ex::VAR, n.nx + r.range(0, n.nu - 1)), b = emit(p, ex::VAR, r.range(0, n.nx - 1)), m = emit(p, ex::MUL, a, b), k = emit(p, ex::MULC, m, 0, rd(0.3 * nl)); acc = emit(p, ex::ADD, acc, k); }
        q.s.f.push_back(p);
    }
    for (int i = 0; i < n.ng; ++i)
    {
        ex::Prog p; Terms v, d;
        for (int k = 0; k < nz; ++k) if (k == i % nz || r.chance(0.4)) v.push_back({k, rd(r.sign() * r.uniform(0.3, 1))});
        for (int k = 0; k < n.nd; ++k) if (r.chance(0.3)) d.push_back({k, rd(r.uniform(-0.3, 0.3))});
        int acc = lin(p, v, d, 0);
        if (nl > 0 && r.chance(0.5)) { const int a = emit(p, ex::VAR, r.range(0, n.nx - 1)), s = emit(p, ex::MUL, a, a), m = emit(p, ex::MULC, s, 0, rd(0.2 * nl)); acc = emit(p, ex::ADD, acc, m); }
        q.s.g.push_back(p);
    }
    for (int which = 0; which < 2; ++which)
    {
        ex::Prog p; int acc = emit(p, ex::CST, 0, 0, 0);
        for (int i = 0; i < nz; ++i)
        {
            if (which && i >= n.nx) break;
            if (which && r.chance(0.3)) continue;
            Terms ref; if (n.nd && r.chance(0.4)) ref.push_back({r.range(0, n.nd - 1), rd(r.uniform(-1, 1))}); if (i < n.nx && r.chance(0.2)) ref.push_back({n.nd, rd(r.uniform(-0.5, 0.5))});
            const int e = lin(p, {{i, 1}}, ref, rd(r.chance(0.5) ? 0 : r.uniform(-0.5, 0.5))), s = emit(p, ex::ABS2, e), m = emit(p, ex::MULC, s, 0, rd(i < n.nx ? r.logu(0.5, 4) : r.logu(0.2, 2)));
            acc = emit(p, ex::ADD, acc, m);
        }
        (which ? q.s.may : q.s.lag) = p;
    }
    return q;
}
VL interpolate(const oc::Dims& n, double t0, double tf, const ML& nodal, L t, L* cond, L* slope)
{
    const L h = ((L)tf - t0) / n.S; int sg = (int)std::floor((t - t0) / h); sg = std::max(0, std::min(n.S - 1, sg));
    const std::vector<L> x = oc::cheb_nodes(n.P); // descending
    const L tau = (t - t0 - sg * h) / h;          // 0..1
    VL v = VL::Zero(nodal.rows()); L cd = 0, mx = 0;
    for (int i = 0; i <= n.P; ++i)
    {
        const L xi = (x[n.P - i] + 1) / 2; L l = 1, m = 1; // m: sum of the moduli of the monomial coefficients of the basis polynomial
        for (int j = 0; j <= n.P; ++j) if (j != i) { const L xj = (x[n.P - j] + 1) / 2; l *= (tau - xj) / (xi - xj); m *= (1 + xj) / std::fabs(xi - xj); }
        v += l * nodal.col(sg * n.P + i); const L a = nodal.col(sg * n.P + i).cwiseAbs().maxCoeff(); cd += m * a; mx = std::max(mx, a);
    }
    *cond = cd; *slope = 4 * n.P * n.P * mx / h;
    return v;
}
Kkt kkt(const oc::Spec& s, const oc::Point& p, const VL& lam, const VL& lbx, const VL& ubx, const VL& lbg, const VL& ubg)
{
    const oc::Dims& n = s.n; const int NE = n.ne(), NI = n.ni(), NV = n.var();
    const oc::Ref q = oc::reference(s, p, VL(), 1, 1);
    Kkt k; k.c = q.c; k.cost = q.cost; k.mag = q.mag; k.feas = 0; k.compl_ = 0; k.sign = 0;
    VL g = q.grad + lam.tail(NV); g += q.J.transpose() * lam.head(NE + NI);
    k.stat = g.lpNorm<Eigen::Infinity>();
    for (int i = 0; i < NE; ++i) k.feas = std::max(k.feas, std::fabs(q.c(i)));
    auto box = [&](L v, L lo, L hi, L y)
    {
        k.feas = std::max(k.feas, std::max(lo - v, v - hi));
        // a positive multiplier pushes against the upper bound, a negative one against the lower
        if (y > 0) k.compl_ = std::max(k.compl_, std::min(y, std::isfinite((double)hi) ? std::fabs(hi - v) : 1e9L));
        if (y < 0) k.compl_ = std::max(k.compl_, std::min(-y, std::isfinite((double)lo) ? std::fabs(v - lo) : 1e9L));
    };
    for (int i = 0; i < NI; ++i) box(q.c(NE + i), lbg(i), ubg(i), lam(NE + i));
    for (int i = 0; i < NV; ++i) box(p.var[i], lbx(i), ubx(i), lam(NE + NI + i));
    return k;
}
}
