#include "lqr_ref.hpp"
#include <Eigen/Dense>
#include <complex>
typedef Eigen::Matrix<std::complex<L>, -1, -1> CL;
static ML kron(const ML& A)
{
    const int n = A.rows(); ML K = ML::Zero(n * n, n * n);
    for (int j = 0; j < n; ++j) for (int i = 0; i < n; ++i) for (int k = 0; k < n; ++k) { K(i + j * n, k + j * n) += A(i, k); K(i + j * n, i + k * n) += A(j, k); }
    return K;
}
static VL vec(const ML& m) { return Eigen::Map<const VL>(m.data(), m.size()); }
double abscissa(const ML& A) { return (double)Eigen::EigenSolver<ML>(A, false).eigenvalues().real().maxCoeff(); }
bool ref_lyapunov(const ML& A, const ML& Q, ML& X, double& cond)
{
    const int n = A.rows(); const ML K = kron(A); Eigen::FullPivLU<ML> lu(K); if (!lu.isInvertible()) return false;
    const ML Ki = lu.inverse(); cond = (double)(K.norm() * Ki.norm()); const VL x = Ki * vec(Q); X = Eigen::Map<const ML>(x.data(), n, n); return true;
}
bool ref_care(const ML& A, const ML& B, const ML& C, ML& S, L& gap)
{
    const int n = A.rows(); ML H(2 * n, 2 * n); H << A, -B, -C, -A.transpose(); Eigen::EigenSolver<ML> es(H); CL U(2 * n, n); int k = 0; gap = INFINITY;
    for (int i = 0; i < 2 * n; ++i) { gap = std::min(gap, std::fabs(es.eigenvalues()(i).real())); if (es.eigenvalues()(i).real() < 0 && k < n) U.col(k++) = es.eigenvectors().col(i); }
    if (k < n) return false;
    Eigen::FullPivLU<CL> lu(CL(U.topRows(n).transpose())); S = CL(lu.solve(CL(U.bottomRows(n).transpose()))).transpose().real();
    return S.allFinite();
}
L ref_guess(const ML& A, const ML& B)
{
    const int n = A.rows(); Eigen::EigenSolver<ML> ea(A, false); const L b = std::max((L)-ea.eigenvalues().real().minCoeff(), (L)0) + 0.5L; const ML T = A + b * ML::Identity(n, n);
    const VL v = Eigen::FullPivLU<ML>(kron(T)).solve(vec(2 * B * B.transpose())); const ML Z = Eigen::Map<const ML>(v.data(), n, n);
    Eigen::SelfAdjointEigenSolver<ML> ez(0.5L * (Z + Z.transpose()), Eigen::EigenvaluesOnly); return ez.eigenvalues().minCoeff() / ez.eigenvalues().maxCoeff();
}
Eigen::MatrixXd rand_orth(const Eigen::MatrixXd& g) { return Eigen::HouseholderQR<Eigen::MatrixXd>(g).householderQ(); }
