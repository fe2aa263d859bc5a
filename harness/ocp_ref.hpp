// Independent transcription of an optimal control problem (Chebyshev-Gauss-Lobatto, global nodes in storage order) in long double.
#ifndef OCP_REF_HPP
#define OCP_REF_HPP
#include <Eigen/Dense>
#include "expr.hpp"
namespace oc {
typedef long double L;
typedef Eigen::Matrix<L, -1, -1> ML;
typedef Eigen::Matrix<L, -1, 1> VL;
struct Dims { int nx, nu, np, nd, ng, P, S; bool lag, may; int nodes() const { return P * S + 1; } int vx() const { return nx * nodes(); } int vu() const { return nu * nodes(); } int var() const { return vx() + vu() + np; } int ne() const { return vx(); } int ni() const { return ng * nodes(); } };
struct Spec { Dims n; std::vector<ex::Prog> f, g; ex::Prog lag, may; }; // functions of (x,u,p) with parameters (d,t)
struct Point { std::vector<double> var, d; double t0, tf; };
struct Ref { L cost; VL grad, c; ML H, J, W; double mag; VL t; }; // W: Hessian of cost_scale * cost + lambda' c
std::vector<L> cheb_nodes(int P);
std::vector<L> times(const Dims& n, double t0, double tf);   // one per node in storage order (first node: final time)
Ref reference(const Spec& s, const Point& p, const VL& lam, double cost_scale, int order);
Spec random_spec(vt::Case& c, const Dims& n, const std::vector<Point>& pts, bool single, int maxlen);
std::vector<Point> random_points(vt::Case& c, const Dims& n, int count, bool single);
}
#endif
