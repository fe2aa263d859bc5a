// Problems for the MPC monitors: linear or mildly nonlinear dynamics, convex stage cost, linear path constraints.
#ifndef MPC_REF_HPP
#define MPC_REF_HPP
#include "ocp_ref.hpp"
namespace mp {
using oc::L; using oc::ML; using oc::VL;
struct Lq { oc::Spec s; bool convex; double nl; };
Lq lq(vt::Rng& r, const oc::Dims& n, double nl, bool single);
// value at absolute time t of the piecewise polynomial through nodal values (rows: components, columns: nodes in ascending time); cond: sensitivity of the monomial form
VL interpolate(const oc::Dims& n, double t0, double tf, const ML& nodal, L t, L* cond, L* slope);
// explicit integration of the true continuous dynamics from x over dt with a control given as a function of time
struct Kkt { L feas, stat, compl_, sign; VL c; L cost, mag; };
Kkt kkt(const oc::Spec& s, const oc::Point& p, const VL& lam, const VL& lbx, const VL& ubx, const VL& lbg, const VL& ubg);
}
#endif
