// Smooth constrained problems with known structure; templated evaluation for the code under test,
// independent long double evaluation (value, gradient, Hessian) for the oracles.
#ifndef SQP_PROB_HPP
#define SQP_PROB_HPP
#include <Eigen/Dense>
#include "vt.hpp"
#include <vector>
namespace sq {
typedef long double L;
typedef Eigen::Matrix<L, Eigen::Dynamic, Eigen::Dynamic> ML; typedef Eigen::Matrix<L, Eigen::Dynamic, 1> VL;
// f(x) = 1/2 x'Qx + (c + C p)'x + sum_j w_j exp(a_j'x) + sum_j v_j sin(b_j'x)
struct Fun
{
    ML Q; VL c; ML C; std::vector<VL> a, b; std::vector<L> w, v; L k = 0;
    VL lin(const VL& p) const { return C.size() ? VL(c + C * p) : c; }
    L val(const VL& x, const VL& p) const;
    VL grad(const VL& x, const VL& p) const;
    ML hess(const VL& x) const;
    // evaluation by the code under test; T is double, float or an AD type
    template <class T, class F, class X, class P> T run(const X& x, const P& p) const
    {
        using std::exp; using std::sin;
        const int n = (int)c.size(), np = (int)C.cols();
        T s(F(0)); s = F(k);
        for (int i = 0; i < n; ++i)
        {
            F l = F(c(i)); for (int j = 0; j < np; ++j) l += F(C(i, j)) * p(j);
            s += l * x(i);
            for (int j = 0; j < n; ++j) if (Q(i, j) != 0) s += F(Q(i, j) / 2) * (x(i) * x(j));
        }
        for (size_t m = 0; m < w.size(); ++m) { T t(F(0)); for (int i = 0; i < n; ++i) t += F(a[m](i)) * x(i); s += F(w[m]) * exp(t); }
        for (size_t m = 0; m < v.size(); ++m) { T t(F(0)); for (int i = 0; i < n; ++i) t += F(b[m](i)) * x(i); s += F(v[m]) * sin(t); }
        return s;
    }
};
struct Data { Fun f; std::vector<Fun> e, g; VL lbx, ubx, lbg, ubg, p; int n() const { return (int)f.c.size(); }
    VL con(const VL& x) const; ML jac(const VL& x) const; ML lagh(const VL& x, const VL& y) const;
    L viol1(const VL& x) const; L violinf(const VL& x) const; };
Fun random_fun(vt::Rng& r, int n, int np, int kind, L scale); // kind: 0 linear, 1 convex quadratic, 2 convex + exp, 3 nonconvex
ML random_psd(vt::Rng& r, int n, L lo, L hi);
// strongly convex cost, convex inequalities, affine equalities, planted primal-dual solution with strict complementarity
struct Planted { Data d; VL x, y; };
bool planted(vt::Rng& r, int n, int ne, int ni, int np, Planted& out, bool affine = false);
Data random_data(vt::Rng& r, int n, int ne, int ni, int np);
} // namespace sq
#endif
