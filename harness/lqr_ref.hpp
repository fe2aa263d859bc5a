// Long double reference computations for the Riccati and Lyapunov monitors.
#ifndef LQR_REF_HPP
#define LQR_REF_HPP
#include <Eigen/Core>
typedef long double L; typedef Eigen::Matrix<L, -1, -1> ML; typedef Eigen::Matrix<L, -1, 1> VL;
double abscissa(const ML& A);                                             // largest real part of the spectrum
bool ref_lyapunov(const ML& A, const ML& Q, ML& X, double& cond);         // A X + X A' = Q
bool ref_care(const ML& A, const ML& B, const ML& C, ML& S, L& gap);      // stabilising solution
L ref_guess(const ML& A, const ML& B);                                    // conditioning of the equation behind the starting guess
Eigen::MatrixXd rand_orth(const Eigen::MatrixXd& g);
#endif
