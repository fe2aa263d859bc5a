// Polynomials, splines, differentiation, preconditioning and LQR for the isolation monitor.
#include "thr.hpp"
#include "polynomials/ebyshev.hpp"
#include "polynomials/legendre.hpp"
#include "polynomials/splines.hpp"
#include "polynomials/polynomial_math.hpp"
#include "autodiff/AutoDiffScalar.h"
#include "control/lqr.hpp"
namespace {
template <class P> void scheme(thr::Stepper& s, double)
{
    P p; (void)p; s.put(P::compute_nodes()); s.put(P::compute_int_weights()); s.put(P::compute_norm_factors()); s.put(P::compute_quad_weights()); s.put(P::compute_diff_matrix());
}
struct Poly : thr::Stepper
{
    double v[thr::STEPS][12], t[thr::STEPS]; std::unique_ptr<polympc::EquidistantCubicSpline<double>> e;
    explicit Poly(vt::Rng& r) { for (int k = 0; k < thr::STEPS; ++k) { for (auto& x : v[k]) x = r.uniform(-1, 1); t[k] = r.uniform(-0.2, 3.2); } }
    void begin() override { e.reset(new polympc::EquidistantCubicSpline<double>); }
    void step(int k) override
    {
        scheme<polympc::Chebyshev<4, polympc::GAUSS_LOBATTO, double>>(*this, t[k]); scheme<polympc::Legendre<3, polympc::GAUSS_LOBATTO, double>>(*this, t[k]);
        Eigen::Matrix<double, 5, 1> nd = polympc::Chebyshev<4, polympc::GAUSS_LOBATTO, double>::compute_nodes() * (1 + 0.1 * v[k][0]); Eigen::Matrix<double, 5, 5> B; polympc::LagrangeSpline::compute_lagrange_basis(nd, B); put(B);
        Eigen::Matrix<double, 2, 5> dat; for (int i = 0; i < 10; ++i) dat(i) = v[k][i]; put(polympc::LagrangeSpline::eval(0.2 * t[k], dat, B));
        Eigen::Matrix<double, 4, 3> co; for (int i = 0; i < 12; ++i) co(i) = v[k][i]; e->coefficients() = co; e->segment_length() = 1 + 0.2 * v[k][1]; put(e->eval(t[k]));
    }
};
struct Ad : thr::Stepper
{
    double v[thr::STEPS][3];
    explicit Ad(vt::Rng& r) { for (auto& a : v) for (auto& x : a) x = r.uniform(-1, 1); }
    void begin() override {}
    void step(int k) override
    {
        typedef Eigen::AutoDiffScalar<Eigen::Matrix<double, 3, 1>> A1; typedef Eigen::AutoDiffScalar<Eigen::Matrix<A1, 3, 1>> A2; typedef Eigen::AutoDiffScalar<Eigen::VectorXd> AX;
        A1 a[3]; A2 b[3]; AX x[3];
        for (int i = 0; i < 3; ++i) { a[i] = A1(v[k][i], 3, i); b[i].value() = a[i]; b[i].derivatives() = Eigen::Vector3d::Unit(i).cast<A1>(); x[i] = AX(v[k][i], 3, i); }
        const A1 f = a[0] * sin(a[1]) + exp(a[2]) / (2.0 + a[0] * a[0]); const A2 g = b[0] * sin(b[1]) + exp(b[2]) / (b[0] * b[0] + 2.0); const AX h = x[0] * sin(x[1]) + exp(x[2]) / (2.0 + x[0] * x[0]);
        put(f.value()); put(f.derivatives()); put(h.value()); put(h.derivatives()); put(g.value().value()); for (int i = 0; i < 3; ++i) { put(g.derivatives()(i).value()); put(g.derivatives()(i).derivatives()); }
    }
};
struct Lqr : thr::Stepper
{
    Eigen::MatrixXd F, G, Q, R, M; int n, m;
    explicit Lqr(vt::Rng& r) { n = r.range(1, 4); m = r.range(1, 2); auto g = [&](int a, int b) { Eigen::MatrixXd x(a, b); for (int j = 0; j < b; ++j) for (int i = 0; i < a; ++i) x(i, j) = r.normal(); return x; }; F = g(n, n); G = g(n, m); Q = g(n, n); Q = (Q * Q.transpose()).eval(); R = Eigen::MatrixXd::Identity(m, m) * r.uniform(0.5, 2); M = Eigen::MatrixXd::Zero(n, m); }
    void begin() override {}
    void step(int k) override
    {
        Eigen::MatrixXd S(n, n), K(m, n); S.setZero(); K.setZero(); const Eigen::MatrixXd Fk = F + 0.1 * k * Eigen::MatrixXd::Identity(n, n);
        lqr(Fk, G, Q, R, M, S, K, k % 2); put(S); put(K); put(pinv(G)); put(lyapunov(Fk, Q));
    }
};
thr::Add a("polynomials", thr::mk<Poly>), b("autodiff", thr::mk<Ad>), d("lqr", thr::mk<Lqr>);
}
