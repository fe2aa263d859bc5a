// Random straight-line programs, evaluated by the code under test (automatic differentiation types)
// and by an independent second-order jet arithmetic in long double.
#ifndef EXPR_HPP
#define EXPR_HPP
#include "vt.hpp"
#include <vector>
namespace ex {
enum Op { VAR, PAR, CST, ADD, SUB, MUL, DIV, ADDC, SUBC, CSUB, MULC, DIVC, CDIV, NEG, SIN, COS, TAN, EXP, LOG, SQRT, TANH, SINH, COSH, ASIN, ACOS, POWC, ABS, MIN, MAX, MINC, MAXC, CLAMP, ACC, ACCM, REUSE, BRANCH, ATAN2, ABS2, FUSE1, FUSE2, FUSE3, FLOOR, NOPS };
struct Node { int op, a, b; double c; };
struct Prog { std::vector<Node> n; std::string str() const; bool constant = false; }; // value: last node; constant: no variable involved
// ---- independent reference
typedef long double ld;
struct Jet { ld v = 0; std::vector<ld> g, h; }; // h: n*n row major
Jet jet(const Prog& p, const std::vector<double>& x, const std::vector<double>& par, ld* mag = nullptr);
// random program; every point in xs stays away from singularities and kinks
Prog random_prog(vt::Rng& r, int nv, int np, int len, const std::vector<std::vector<double>>& xs, const std::vector<std::vector<double>>& ps, bool nofuse = false);

// ---- evaluation with the type under test (include after AutoDiffScalar)
template <class T, class F, bool SECOND> struct Special { static T pow_(const T& x, F c) { using std::pow; return pow(x, c); } };
template <class T, class F> struct Special<T, F, true> { static T pow_(const T& x, F c) { using std::exp; using std::log; return exp(c * T(log(x))); } }; // pow() of a nested type does not compile
template <class T, class F, bool SECOND, class VX, class VP>
T run(const Prog& p, const VX& x, const VP& par)
{
    using std::sin; using std::cos; using std::tan; using std::exp; using std::log; using std::sqrt; using std::tanh; using std::sinh; using std::cosh; using std::asin; using std::acos; using std::abs; using std::min; using std::max;
#ifdef EX_STACK
    struct { T d[EX_STACK]; int k = 0; T& operator[](int i) { return d[i]; } void push_back(const T& t) { if (k == EX_STACK) abort(); d[k++] = t; } T& back() { return d[k - 1]; } } v; // no heap
#else
    std::vector<T> v; v.reserve(p.n.size());
#endif
    for (const Node& n : p.n)
    {
        const F c = (F)n.c;
        T t(F(0));
        switch (n.op)
        {
        case VAR: t = x(n.a); break;
        case PAR: t = par(n.a); break;
        case CST: t = c; break;
        case ADD: t = v[n.a] + v[n.b]; break;
        case SUB: t = v[n.a] - v[n.b]; break;
        case MUL: t = v[n.a] * v[n.b]; break;
        case DIV: t = v[n.a] / v[n.b]; break;
        case ADDC: t = v[n.a] + c; break;
        case SUBC: t = v[n.a] - c; break;
        case CSUB: t = c - v[n.a]; break;
        case MULC: t = c * v[n.a]; break;
        case DIVC: t = v[n.a] / c; break;
        case CDIV: t = c / v[n.a]; break;
        case NEG: t = -v[n.a]; break;
        case SIN: t = sin(v[n.a]); break;
        case COS: t = cos(v[n.a]); break;
        case TAN: t = tan(v[n.a]); break;
        case EXP: t = exp(v[n.a]); break;
        case LOG: t = log(v[n.a]); break;
        case SQRT: t = sqrt(v[n.a]); break;
        case TANH: t = tanh(v[n.a]); break;
        case SINH: t = sinh(v[n.a]); break;
        case COSH: t = cosh(v[n.a]); break;
        case ASIN: t = asin(v[n.a]); break;
        case ACOS: t = acos(v[n.a]); break;
        case POWC: t = Special<T, F, SECOND>::pow_(v[n.a], c); break;
        case ABS: t = abs(v[n.a]); break;
        case MIN: t = min(v[n.a], v[n.b]); break;   // found by argument dependent lookup
        case MAX: t = max(v[n.a], v[n.b]); break;
        case MINC: t = min(v[n.a], c); break;
        case MAXC: t = max(c, v[n.a]); break;
        case CLAMP: t = v[n.a]; if (t > T(c)) t = c; break;           // constant assigned to a live variable
        case ACC: t = v[n.a]; t += v[n.b]; t -= c; t *= c; t += c; break; // compound assignment
        case ACCM: t = v[n.a]; t *= v[n.b]; t /= c; t -= v[n.a]; break;
        case REUSE: t = v[n.a]; t = c; t = t * v[n.b]; break;          // a temporary is recycled
        case BRANCH: if (v[n.a] < v[n.b]) t = v[n.a] * c; else t = v[n.b] - c; break;
        case ATAN2: { using std::atan2; t = atan2(v[n.a], v[n.b]); break; }
        case ABS2: t = v[n.a] * v[n.a]; break;
        // whole expressions, as users write them: nothing is stored in between
        case FUSE1: t = v[n.a] * v[n.b] + c * sin(v[n.a]) - v[n.b] / (c * c + F(1)); break;
        case FUSE2: t = (v[n.a] - c) * (v[n.a] - c) + (c - v[n.b]) * v[n.a]; break;
        case FUSE3: t = -cos(v[n.a] * c) * (v[n.b] + F(2)) + exp(-v[n.a] * v[n.a]); break;
        case FLOOR: { using std::floor; t = floor(v[n.a]); t += v[n.b]; break; }
        default: break;
        }
        v.push_back(t);
    }
    return v.back();
}
} // namespace ex
#endif
