#include "expr.hpp"
namespace ex {
static const char* NAMES[] = {"var", "par", "const", "+", "-", "*", "/", "+c", "-c", "c-", "c*", "/c", "c/", "neg", "sin", "cos", "tan", "exp", "log", "sqrt", "tanh", "sinh", "cosh", "asin", "acos", "powc", "abs", "min", "max", "minc", "maxc", "clamp", "acc", "accm", "reuse", "branch", "atan2", "sq", "fuse1", "fuse2", "fuse3", "floor+"};
static bool binary(int op) { return op == ADD || op == SUB || op == MUL || op == DIV || op == MIN || op == MAX || op == ACC || op == ACCM || op == REUSE || op == BRANCH || op == ATAN2 || op == FUSE1 || op == FUSE2 || op == FUSE3 || op == FLOOR; }
std::string Prog::str() const
{
    std::string s;
    for (size_t i = 0; i < n.size(); ++i)
    {
        s += vt::fmt("%s%zu=%s", i ? ";" : "", i, NAMES[n[i].op]);
        if (n[i].op == VAR || n[i].op == PAR) s += vt::fmt(" %d", n[i].a);
        else if (n[i].op != CST) s += binary(n[i].op) ? vt::fmt(" #%d #%d", n[i].a, n[i].b) : vt::fmt(" #%d", n[i].a);
        if (n[i].c != 0) s += vt::fmt(" c=%.3g", n[i].c);
    }
    return s;
}
// second order chain rule for f(a,b) given the partial derivatives
static Jet chain2(const Jet& a, const Jet& b, ld v, ld fa, ld fb, ld faa, ld fab, ld fbb)
{
    const size_t n = a.g.size();
    Jet r; r.v = v; r.g.resize(n); r.h.resize(n * n);
    for (size_t i = 0; i < n; ++i) r.g[i] = fa * a.g[i] + fb * b.g[i];
    for (size_t i = 0; i < n; ++i)
        for (size_t j = 0; j < n; ++j)
            r.h[i * n + j] = fa * a.h[i * n + j] + fb * b.h[i * n + j] + faa * a.g[i] * a.g[j] + fbb * b.g[i] * b.g[j] + fab * (a.g[i] * b.g[j] + b.g[i] * a.g[j]);
    return r;
}
static Jet chain1(const Jet& a, ld v, ld f1, ld f2) { return chain2(a, a, v, f1, 0, f2, 0, 0); }
static Jet cst(size_t n, ld v) { Jet r; r.v = v; r.g.assign(n, 0); r.h.assign(n * n, 0); return r; }
static Jet add(const Jet& a, const Jet& b, ld s) { return chain2(a, b, a.v + s * b.v, 1, s, 0, 0, 0); }
static Jet mul(const Jet& a, const Jet& b) { return chain2(a, b, a.v * b.v, b.v, a.v, 0, 1, 0); }
static Jet dvd(const Jet& a, const Jet& b) { return chain2(a, b, a.v / b.v, 1 / b.v, -a.v / (b.v * b.v), 0, -1 / (b.v * b.v), 2 * a.v / (b.v * b.v * b.v)); }
static Jet lin(const Jet& a, ld m, ld q) { return chain1(a, m * a.v + q, m, 0); }
static Jet node(const Node& n, const std::vector<Jet>& v, const std::vector<double>& x, const std::vector<double>& par)
{
    const size_t N = x.size();
    const ld c = n.c;
    const Jet* A = n.op > CST ? &v[n.a] : nullptr;
    const Jet* B = binary(n.op) ? &v[n.b] : nullptr;
    const ld a = A ? A->v : 0;
    switch (n.op)
    {
    case VAR: { Jet r = cst(N, x[n.a]); r.g[n.a] = 1; return r; }
    case PAR: return cst(N, par[n.a]);
    case CST: return cst(N, c);
    case ADD: return add(*A, *B, 1);
    case SUB: return add(*A, *B, -1);
    case MUL: return mul(*A, *B);
    case DIV: return dvd(*A, *B);
    case ADDC: return lin(*A, 1, c);
    case SUBC: return lin(*A, 1, -c);
    case CSUB: return lin(*A, -1, c);
    case MULC: return lin(*A, c, 0);
    case DIVC: return lin(*A, 1 / c, 0);
    case CDIV: return chain1(*A, c / a, -c / (a * a), 2 * c / (a * a * a));
    case NEG: return lin(*A, -1, 0);
    case SIN: return chain1(*A, sinl(a), cosl(a), -sinl(a));
    case COS: return chain1(*A, cosl(a), -sinl(a), -cosl(a));
    case TAN: { const ld t = tanl(a), d = 1 + t * t; return chain1(*A, t, d, 2 * t * d); }
    case EXP: return chain1(*A, expl(a), expl(a), expl(a));
    case LOG: return chain1(*A, logl(a), 1 / a, -1 / (a * a));
    case SQRT: { const ld s = sqrtl(a); return chain1(*A, s, 0.5L / s, -0.25L / (s * a)); }
    case TANH: { const ld t = tanhl(a), d = 1 - t * t; return chain1(*A, t, d, -2 * t * d); }
    case SINH: return chain1(*A, sinhl(a), coshl(a), sinhl(a));
    case COSH: return chain1(*A, coshl(a), sinhl(a), coshl(a));
    case ASIN: { const ld q = 1 - a * a, s = sqrtl(q); return chain1(*A, asinl(a), 1 / s, a / (q * s)); }
    case ACOS: { const ld q = 1 - a * a, s = sqrtl(q); return chain1(*A, acosl(a), -1 / s, -a / (q * s)); }
    case POWC: return chain1(*A, powl(a, c), c * powl(a, c - 1), c * (c - 1) * powl(a, c - 2));
    case ABS: return lin(*A, a < 0 ? -1 : 1, 0);
    case MIN: return a < B->v ? *A : *B;
    case MAX: return a > B->v ? *A : *B;
    case MINC: return a < c ? *A : cst(N, c);
    case MAXC: return a > c ? *A : cst(N, c);
    case CLAMP: return a > c ? cst(N, c) : *A;
    case ACC: return lin(lin(add(*A, *B, 1), 1, -c), c, c);
    case ACCM: return add(lin(mul(*A, *B), 1 / c, 0), *A, -1);
    case REUSE: return lin(*B, c, 0);
    case BRANCH: return a < B->v ? lin(*A, c, 0) : lin(*B, 1, -c);
    case ATAN2: { const ld b = B->v, q = a * a + b * b; return chain2(*A, *B, atan2l(a, b), b / q, -a / q, -2 * a * b / (q * q), (a * a - b * b) / (q * q), 2 * a * b / (q * q)); }
    case ABS2: return mul(*A, *A);
    case FUSE1: return add(add(mul(*A, *B), chain1(*A, c * sinl(a), c * cosl(a), -c * sinl(a)), 1), lin(*B, 1 / (c * c + 1), 0), -1);
    case FUSE2: return add(mul(lin(*A, 1, -c), lin(*A, 1, -c)), mul(lin(*B, -1, c), *A), 1);
    case FUSE3: { const Jet q = lin(*A, c, 0); const ld e = expl(-a * a);
        return add(mul(chain1(q, -cosl(q.v), sinl(q.v), cosl(q.v)), lin(*B, 1, 2)), chain1(*A, e, -2 * a * e, (4 * a * a - 2) * e), 1); }
    case FLOOR: return add(cst(N, floorl(a)), *B, 1);
    }
    return cst(N, 0);
}
static ld size_of(const Jet& j)
{
    ld m = fabsl(j.v);
    for (ld t : j.g) m = std::max(m, fabsl(t));
    for (ld t : j.h) m = std::max(m, fabsl(t));
    return m;
}
Jet jet(const Prog& p, const std::vector<double>& x, const std::vector<double>& par, ld* mag)
{
    std::vector<Jet> v;
    for (const Node& n : p.n)
    {
        v.push_back(node(n, v, x, par));
        if (mag) *mag = std::max(*mag, size_of(v.back()));
    }
    return v.back();
}
// distance from kinks / singularities of this node at this point; false: do not use
static bool regular(const Node& n, const std::vector<Jet>& v)
{
    if (n.op <= CST) return true;
    const ld a = v[n.a].v, b = binary(n.op) ? v[n.b].v : 0, c = n.c, m = 0.05L;
    switch (n.op)
    {
    case DIV: return fabsl(b) > 0.2L;
    case CDIV: return fabsl(a) > 0.2L;
    case TAN: return fabsl(cosl(a)) > 0.3L && fabsl(a) < 6;
    case TANH: return fabsl(a) < 10;
    case EXP: case SINH: case COSH: return fabsl(a) < 3;
    case LOG: case SQRT: return a > 0.1L;
    case ASIN: case ACOS: return fabsl(a) < 0.9L;
    case POWC: return a > 0.2L;
    case ABS: return fabsl(a) > m;
    case MIN: case MAX: case BRANCH: return fabsl(a - b) > m;
    case MINC: case MAXC: case CLAMP: return fabsl(a - c) > m;
    case FLOOR: return fabsl(a - roundl(a)) > m;
    case ATAN2: return a * a + b * b > 0.05L && !(b < 0 && fabsl(a) < m);
    }
    return true;
}
Prog random_prog(vt::Rng& r, int nv, int np, int len, const std::vector<std::vector<double>>& xs, const std::vector<std::vector<double>>& ps, bool nofuse)
{
    Prog p;
    std::vector<std::vector<Jet>> v(xs.size()); // values at every point
    std::vector<bool> active;
    auto push = [&](const Node& n) {
        std::vector<Jet> nv_(xs.size());
        for (size_t k = 0; k < xs.size(); ++k)
        {
            if (!regular(n, v[k])) return false;
            nv_[k] = node(n, v[k], xs[k], ps[k]);
            if (!(size_of(nv_[k]) < 50)) return false;
        }
        for (size_t k = 0; k < xs.size(); ++k) v[k].push_back(nv_[k]);
        active.push_back(n.op == VAR || (n.op > CST && (active[n.a] || (binary(n.op) && active[n.b]))));
        p.n.push_back(n);
        return true;
    };
    for (int i = 0; i < nv; ++i) push({VAR, i, 0, 0});
    for (int i = 0; i < np; ++i) push({PAR, i, 0, 0});
    if (r.chance(0.3)) push({CST, 0, 0, r.uniform(-2, 2)});
    const int base = (int)p.n.size();
    int tries = 0;
    while ((int)p.n.size() < base + len && ++tries < 400)
    {
        const int op = r.range(ADD, NOPS - 1), m = (int)p.n.size();
        if (nofuse && op >= FUSE1 && op <= FUSE3) continue;
        Node n{op, r.range(0, m - 1), 0, 0};
        if (r.chance(0.5)) n.a = r.range(std::max(0, m - 3), m - 1);
        if (binary(op)) n.b = r.range(0, m - 1);
        n.c = r.sign() * r.uniform(0.3, 2.5);
        if (op == POWC) n.c = r.pick(std::vector<double>{2, 3, -1, 0.5, 1.5, -2, 2.7});
        push(n);
    }
    if (!active.back() && r.chance(0.8))
    {
        const int m = (int)p.n.size(), mul = r.chance(0.5) ? MUL : ADD;
        push({mul, m - 1, r.range(0, nv - 1), 0});
    }
    p.constant = !active.back();
    return p;
}
} // namespace ex
