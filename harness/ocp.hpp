// The optimal control problem under test: -DO_X -DO_U -DO_P -DO_D -DO_G -DO_F -DO_POLY -DO_SEG -DO_SP -DO_COST (1 Lagrange, 2 Mayer, 3 both)
#include "ocp_ref.hpp"
#include "polynomials/ebyshev.hpp"
#include "polynomials/splines.hpp"
#include "control/continuous_ocp.hpp"
#include <new>
#ifndef O_X
#define O_X 2
#define O_U 1
#define O_P 1
#define O_D 1
#define O_G 1
#define O_F double
#define O_POLY 3
#define O_SEG 2
#define O_SP 0
#define O_COST 3
#endif
typedef O_F F;
#define OC2(a, b, c, d, e, f, g, h, i) ocp_##a##b##c##d##e##_##f##g##_##h##i
#define OC1(a, b, c, d, e, f, g, h, i) OC2(a, b, c, d, e, f, g, h, i)
#ifdef OC_DEFAULT_SPEC
namespace { const oc::Spec*& default_spec() { static const oc::Spec* p = nullptr; return p; } } // for owners that evaluate the problem while they are constructed
#endif
POLYMPC_FORWARD_DECLARATION(TestOcp, O_X, O_U, O_P, O_D, O_G, F)
typedef polympc::Spline<polympc::Chebyshev<O_POLY, polympc::GAUSS_LOBATTO, F>, O_SEG> Approx;
class TestOcp : public ContinuousOCP<TestOcp, Approx, O_SP ? SPARSE : DENSE>
{
public:
#ifdef OC_DEFAULT_SPEC
    const oc::Spec* s = default_spec();
#else
    const oc::Spec* s = nullptr;
#endif
    mutable long calls[4] = {0, 0, 0, 0};
    template <class T> struct is2 { static const bool value = false; };
    template <class T, class X, class U, class P, class Q>
    static T eval(const ex::Prog& pr, const X& x, const U& u, const P& p, const Q& q)
    {
        Eigen::Matrix<T, O_X + O_U + O_P, 1> z;
        for (int i = 0; i < O_X; ++i) z(i) = x(i);
        for (int i = 0; i < O_U; ++i) z(O_X + i) = u(i);
        for (int i = 0; i < O_P; ++i) z(O_X + O_U + i) = p(i);
        return ex::run<T, F, true>(pr, z, q);
    }
    template <class T, class X, class U, class P, class D, class O>
    static void put(const ex::Prog& pr, const X& x, const U& u, const P& p, const D& d, const F& t, O& out)
    {
        Eigen::Matrix<F, O_D + 1, 1> q; for (int i = 0; i < O_D; ++i) q(i) = d(i); q(O_D) = t;
        if (pr.constant) { out = ex::run<F, F, true>(pr, Eigen::Matrix<F, O_X + O_U + O_P, 1>::Zero().eval(), q); return; } // a plain number
        out = eval<T>(pr, x, u, p, q);
    }
    template <typename T>
    EIGEN_STRONG_INLINE void dynamics_impl(const Eigen::Ref<const state_t<T>> x, const Eigen::Ref<const control_t<T>> u, const Eigen::Ref<const parameter_t<T>> p, const Eigen::Ref<const static_parameter_t> d, const T& t, Eigen::Ref<state_t<T>> xdot) const noexcept
    {
        ++calls[0];
        Eigen::Matrix<T, O_D + 1, 1> q; for (int i = 0; i < O_D; ++i) q(i) = T(d(i)); q(O_D) = t;
        for (int i = 0; i < O_X; ++i) xdot(i) = eval<T>(s->f[i], x, u, p, q);
    }
#if O_G
    template <typename T>
    EIGEN_STRONG_INLINE void inequality_constraints_impl(const Eigen::Ref<const state_t<T>> x, const Eigen::Ref<const control_t<T>> u, const Eigen::Ref<const parameter_t<T>> p, const Eigen::Ref<const static_parameter_t> d, const F& t, Eigen::Ref<constraint_t<T>> g) const noexcept
    { ++calls[1]; for (int i = 0; i < O_G; ++i) put<T>(s->g[i], x, u, p, d, t, g(i)); }
#endif
#if O_COST & 1
    template <typename T>
    EIGEN_STRONG_INLINE void lagrange_term_impl(const Eigen::Ref<const state_t<T>> x, const Eigen::Ref<const control_t<T>> u, const Eigen::Ref<const parameter_t<T>> p, const Eigen::Ref<const static_parameter_t> d, const F& t, T& lagrange) const noexcept
    { ++calls[2]; put<T>(s->lag, x, u, p, d, t, lagrange); }
#endif
#if O_COST & 2
    template <typename T>
    EIGEN_STRONG_INLINE void mayer_term_impl(const Eigen::Ref<const state_t<T>> x, const Eigen::Ref<const control_t<T>> u, const Eigen::Ref<const parameter_t<T>> p, const Eigen::Ref<const static_parameter_t> d, const F& t, T& mayer) const noexcept
    { ++calls[3]; put<T>(s->may, x, u, p, d, t, mayer); }
#endif
};
namespace {
const bool SINGLE = sizeof(F) == 4;
const double U_ = SINGLE ? 1.2e-7 : 2.3e-16;
inline oc::Dims dims() { oc::Dims n; n.nx = O_X; n.nu = O_U; n.np = O_P; n.nd = O_D; n.ng = O_G; n.P = O_POLY; n.S = O_SEG; n.lag = O_COST & 1; n.may = O_COST & 2; return n; }
struct Mem
{
    void* m; TestOcp* o;
    explicit Mem(int fill) { m = aligned_alloc(64, (sizeof(TestOcp) + 63) / 64 * 64); vt::dirty(m, fill, sizeof(TestOcp)); o = new (m) TestOcp; }
    ~Mem() { o->~TestOcp(); free(m); }
};
#define STR2(x) #x
#define STR1(x) STR2(x)
#define OCP_NAME STR1(O_X) STR1(O_U) STR1(O_P) STR1(O_D) STR1(O_G) "_" STR1(O_POLY) STR1(O_SEG) "_" STR1(O_F) "_" STR1(O_SP) STR1(O_COST)
}
