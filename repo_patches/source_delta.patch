From 0c22077ffe105d0accc46932542c191b060562a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:09 +0000
Subject: [PATCH 01/41] fix: boxADMM over-relaxation (alpha != 1) used the new
 iterate instead of the previous one

---
 src/solvers/box_admm.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/solvers/box_admm.hpp b/src/solvers/box_admm.hpp
index c31106a..9199f45 100644
--- a/src/solvers/box_admm.hpp
+++ b/src/solvers/box_admm.hpp
@@ -92,6 +92,7 @@ public:
     {
         /** setup part */
         kkt_vec_t rhs, x_tilde_nu;
+        qp_var_t x_relaxed;
         bool check_termination = false;
 
         this->m_x = x_guess;
@@ -126,8 +127,7 @@ public:
             m_z_tilde = m_z_prev + m_rho_inv_vec.cwiseProduct(x_tilde_nu.template tail<M>() - this->m_y.template head<M>());
 
             /** update x */
-            this->m_x.noalias() = this->m_settings.alpha * m_x_tilde;
-            this->m_x.noalias() += (1 - this->m_settings.alpha) * this->m_x;
+            this->m_x.noalias() = this->m_settings.alpha * m_x_tilde + (1 - this->m_settings.alpha) * this->m_x;
 
             /** update z */
             m_z.noalias() = this->m_settings.alpha * m_z_tilde;
@@ -135,7 +135,8 @@ public:
             m_z = m_z.cwiseMax(Alb).cwiseMin(Aub); //box projection
 
             /** update q */
-            m_q.noalias() = this->m_x + m_rho_vec_box_inv.cwiseProduct(this->m_y.template tail<N>());
+            x_relaxed.noalias() = this->m_settings.alpha * m_x_tilde + (1 - this->m_settings.alpha) * m_q;
+            m_q.noalias() = x_relaxed + m_rho_vec_box_inv.cwiseProduct(this->m_y.template tail<N>());
             m_q = m_q.cwiseMax(xlb).cwiseMin(xub); // box projection
 
             /** update y (dual) */
@@ -144,7 +145,7 @@ public:
 
             /** update y_box (dual) */
             //m_y_box.noalias() += m_rho_vec_box.cwiseProduct(this->m_settings.alpha * m_x_tilde + (1 - this->m_settings.alpha) * m_q_prev - m_q);
-            this->m_y.template tail<N>().noalias() += m_rho_vec_box.cwiseProduct(this->m_x - m_q);
+            this->m_y.template tail<N>().noalias() += m_rho_vec_box.cwiseProduct(x_relaxed - m_q);
 
             if (this->m_settings.check_termination != 0 && iter % this->m_settings.check_termination == 0)
                 check_termination = true;
-- 
2.43.0


From e51d3ca8bcc78511a0392e9b369a9091fca0a2fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:50 +0000
Subject: [PATCH 02/41] fix: reuse_pattern of the sparse ADMM solvers with
 unstored Hessian diagonals and Lower|Upper KKT matrices

---
 src/solvers/admm.hpp     | 17 +++++++----------
 src/solvers/box_admm.hpp | 17 +++++++----------
 2 files changed, 14 insertions(+), 20 deletions(-)

diff --git a/src/solvers/admm.hpp b/src/solvers/admm.hpp
index a849d6f..bfba7c7 100644
--- a/src/solvers/admm.hpp
+++ b/src/solvers/admm.hpp
@@ -321,17 +321,14 @@ public:
     EIGEN_STRONG_INLINE typename std::enable_if<T == SPARSE>::type
     construct_kkt_matrix_same_pattern(const Eigen::Ref<const qp_hessian_t>& H, const Eigen::Ref<const admm_constraint_t>& A) noexcept
     {
-        /** just copy content of nonzero vectors*/
-        // copy H and A blocks
+        /** overwrite the stored values: H may not store (all of) its diagonal, the KKT matrix always does */
         for(Eigen::Index k = 0; k < N; ++k)
-        {
-            std::copy_n(H.valuePtr() + H.outerIndexPtr()[k], H.innerNonZeroPtr()[k], m_K.valuePtr() + m_K.outerIndexPtr()[k]);
-            std::copy_n(A.valuePtr() + A.outerIndexPtr()[k], A.innerNonZeroPtr()[k], m_K.valuePtr() + m_K.outerIndexPtr()[k] + H.innerNonZeroPtr()[k]);
-        }
-        // reserve the space and insert values from H and A
-        if(LinearSolver_UpLo == (Eigen::Upper|Eigen::Lower))
-            block_set_sparse(m_K, N, 0, A.transpose());
+            m_K.coeffRef(k, k) = scalar_t(0);
 
+        block_set_sparse(m_K, 0, 0, H);
+        block_set_sparse(m_K, N, 0, A);
+        if(LinearSolver_UpLo == (Eigen::Upper|Eigen::Lower))
+            block_set_sparse(m_K, 0, N, A.transpose());
 
         // add diagonal blocks*/
         m_K.diagonal(). template head<N>() += qp_var_t::Constant(this->m_settings.sigma);
@@ -357,7 +354,7 @@ public:
         // assumes enough spase is allocated in the dst matrix
         for(Eigen::Index k = 0; k < src.outerSize(); ++k)
             for (typename Eigen::SparseMatrix<scalar_t>::InnerIterator it(src, k); it; ++it)
-                dst.insert(row_offset + it.row(), col_offset + it.col()) = it.value();
+                dst.coeffRef(row_offset + it.row(), col_offset + it.col()) = it.value();
     }
 
     /** workaround function to estimate number of nonzeros */
diff --git a/src/solvers/box_admm.hpp b/src/solvers/box_admm.hpp
index 9199f45..d0d4f42 100644
--- a/src/solvers/box_admm.hpp
+++ b/src/solvers/box_admm.hpp
@@ -292,17 +292,14 @@ public:
     EIGEN_STRONG_INLINE typename std::enable_if<T == SPARSE>::type
     construct_kkt_matrix_same_pattern(const Eigen::Ref<const qp_hessian_t>& H, const Eigen::Ref<const qp_constraint_t>& A) noexcept
     {
-        /** just copy content of nonzero vectors*/
-        // copy H and A blocks
+        /** overwrite the stored values: H may not store (all of) its diagonal, the KKT matrix always does */
         for(Eigen::Index k = 0; k < N; ++k)
-        {
-            std::copy_n(H.valuePtr() + H.outerIndexPtr()[k], H.innerNonZeroPtr()[k], m_K.valuePtr() + m_K.outerIndexPtr()[k]);
-            std::copy_n(A.valuePtr() + A.outerIndexPtr()[k], A.innerNonZeroPtr()[k], m_K.valuePtr() + m_K.outerIndexPtr()[k] + H.innerNonZeroPtr()[k]);
-        }
-        // reserve the space and insert values from H and A
-        if(LinearSolver_UpLo == (Eigen::Upper|Eigen::Lower))
-            block_set_sparse(m_K, N, 0, A.transpose());
+            m_K.coeffRef(k, k) = scalar_t(0);
 
+        block_set_sparse(m_K, 0, 0, H);
+        block_set_sparse(m_K, N, 0, A);
+        if(LinearSolver_UpLo == (Eigen::Upper|Eigen::Lower))
+            block_set_sparse(m_K, 0, N, A.transpose());
 
         // add diagonal blocks*/
         m_K.diagonal(). template head<N>() += qp_var_t::Constant(this->m_settings.sigma);
@@ -329,7 +326,7 @@ public:
         // assumes enough spase is allocated in the dst matrix
         for(Eigen::Index k = 0; k < src.outerSize(); ++k)
             for (typename Eigen::SparseMatrix<scalar_t>::InnerIterator it(src, k); it; ++it)
-                dst.insert(row_offset + it.row(), col_offset + it.col()) = it.value();
+                dst.coeffRef(row_offset + it.row(), col_offset + it.col()) = it.value();
     }
 
 
-- 
2.43.0


From 7690aebe4d1d22dc6055c1acf39f72c7379886e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:02 +0000
Subject: [PATCH 03/41] fix: sparse Ruiz equilibration divided by zero for a
 zero gradient

---
 src/solvers/qp_preconditioners.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/solvers/qp_preconditioners.hpp b/src/solvers/qp_preconditioners.hpp
index 8cd4eef..7f92533 100644
--- a/src/solvers/qp_preconditioners.hpp
+++ b/src/solvers/qp_preconditioners.hpp
@@ -286,7 +286,9 @@ public:
 
             // update gamma factor
             for(int i = 0; i < N; ++i) m_D(i) = maxxCoeff(H.col(i).cwiseAbs());
-            gamma_scaling = scalar_t(1) / std::max(m_D.mean(), h.template lpNorm<Eigen::Infinity>());
+            scalar_t h_inf = h.template lpNorm<Eigen::Infinity>();
+            h_inf = h_inf > std::numeric_limits<scalar_t>::epsilon() ? h_inf : scalar_t(1.0);
+            gamma_scaling = scalar_t(1) / std::max(m_D.mean(), h_inf);
             H *= gamma_scaling;
             h *= gamma_scaling;
             m_c *= gamma_scaling;
-- 
2.43.0


From 63d06f3651eed9344d14059233b0d33f8a059c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:28 +0000
Subject: [PATCH 04/41] fix: assigning a constant to an AutoDiffScalar kept its
 old derivatives

---
 src/autodiff/AutoDiffScalar.h | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/autodiff/AutoDiffScalar.h b/src/autodiff/AutoDiffScalar.h
index 92a0194..cbc2341 100644
--- a/src/autodiff/AutoDiffScalar.h
+++ b/src/autodiff/AutoDiffScalar.h
@@ -146,6 +146,8 @@ class AutoDiffScalar
     inline AutoDiffScalar& operator=(const Scalar& other)
     {
       m_value = other;
+      if(m_derivatives.size()>0)
+        m_derivatives.setZero();
       return *this;
     }
 
@@ -499,6 +501,15 @@ struct make_coherent_impl<Matrix<A_Scalar, A_Rows, A_Cols, A_Options, A_MaxRows,
   }
 };
 
+/** assigning a matrix of plain scalars to a matrix of active scalars (as in "m_ad_x = x") sets
+  * the values and keeps the derivative seeds */
+template<typename DerType>
+struct assign_op<AutoDiffScalar<DerType>, typename DerType::Scalar>
+{
+  EIGEN_EMPTY_STRUCT_CTOR(assign_op)
+  EIGEN_STRONG_INLINE void assignCoeff(AutoDiffScalar<DerType>& a, const typename DerType::Scalar& b) const { a.value() = b; }
+};
+
 } // end namespace internal
 
 template<typename DerType, typename BinOp>
-- 
2.43.0


From bc16360dfc01d8fafe2d1212f88f8336fa5f7263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:27 +0000
Subject: [PATCH 05/41] fix: atan2 of AutoDiffScalars with dynamic derivatives
 aborted when one operand was a constant

---
 src/autodiff/AutoDiffScalar.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/autodiff/AutoDiffScalar.h b/src/autodiff/AutoDiffScalar.h
index cbc2341..aa44647 100644
--- a/src/autodiff/AutoDiffScalar.h
+++ b/src/autodiff/AutoDiffScalar.h
@@ -654,6 +654,7 @@ atan2(const AutoDiffScalar<DerTypeA>& a, const AutoDiffScalar<DerTypeB>& b)
   typedef typename internal::traits<typename internal::remove_all<DerTypeA>::type>::Scalar Scalar;
   typedef AutoDiffScalar<Matrix<Scalar,Dynamic,1> > PlainADS;
   PlainADS ret;
+  internal::make_coherent(a.derivatives(), b.derivatives());
   ret.value() = atan2(a.value(), b.value());
   
   Scalar squared_hypot = a.value() * a.value() + b.value() * b.value();
-- 
2.43.0


From 0e0f3d3af079e8a89b5d23c44069f712893ca57b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:34 +0000
Subject: [PATCH 06/41] fix: floor of an AutoDiffScalar had derivative one
 instead of zero

---
 src/autodiff/AutoDiffScalar.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/autodiff/AutoDiffScalar.h b/src/autodiff/AutoDiffScalar.h
index aa44647..501925a 100644
--- a/src/autodiff/AutoDiffScalar.h
+++ b/src/autodiff/AutoDiffScalar.h
@@ -634,7 +634,7 @@ EIGEN_AUTODIFF_DECLARE_GLOBAL_UNARY(log,
 
 EIGEN_AUTODIFF_DECLARE_GLOBAL_UNARY(floor,
   using std::floor;
-  return Eigen::MakeAutoDiffScalar(floor(x.value()), x.derivatives() * Scalar(1));)
+  return Eigen::MakeAutoDiffScalar(floor(x.value()), x.derivatives() * Scalar(0));)
 
 template<typename DerType>
 inline const Eigen::AutoDiffScalar<
-- 
2.43.0


From b5fa935ca60485cbe294905bdcad3f32c7adb82e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:19 +0000
Subject: [PATCH 07/41] fix: misspelled call made
 ProblemBase::lagrangian_gradient uncompilable

---
 src/solvers/nlproblem.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solvers/nlproblem.hpp b/src/solvers/nlproblem.hpp
index ce877e7..2c5e12c 100644
--- a/src/solvers/nlproblem.hpp
+++ b/src/solvers/nlproblem.hpp
@@ -560,7 +560,7 @@ void ProblemBase<Derived, MatrixFormat>::lagrangian_gradient_impl(const Eigen::R
     nlp_eq_jacobian_t jac_c;
     nlp_ineq_jacobian_t jac_g;
     this->cost_gradient(var, p, _lagrangian, _lag_gradient);
-    this->equalities_linerised(var, p, c, jac_c);
+    this->equalities_linearised(var, p, c, jac_c);
     this->inequalities_linearised(var, p, g, jac_g);
     //_lagrangian += c.dot(lam.template head<NUM_EQ>()); // do not compute at all??
     /** @badcode: replace with block products ???*/
-- 
2.43.0


From 0bc1a255566c0deb100c3e84da169b5b818a61b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:39 +0000
Subject: [PATCH 08/41] fix: stale derivatives in cost_gradient_hessian of a
 problem without a cost

---
 src/solvers/nlproblem.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solvers/nlproblem.hpp b/src/solvers/nlproblem.hpp
index 2c5e12c..34a6154 100644
--- a/src/solvers/nlproblem.hpp
+++ b/src/solvers/nlproblem.hpp
@@ -519,7 +519,7 @@ void ProblemBase<Derived, MatrixFormat>::cost_gradient_hessian_impl(const Eigen:
     _cost = scalar_t(0);
     _cost_gradient = nlp_variable_t::Zero(VAR_SIZE);
     hessian  = nlp_hessian_t::Zero(VAR_SIZE, VAR_SIZE);
-    m_ad2_cost.value().value() = 0;
+    m_ad2_cost = ad2_scalar_t(ad_scalar_t(0));
 
     // set variable values
     for(int i = 0; i < VAR_SIZE; i++)
-- 
2.43.0


From d0a5e7b0a1f8553fc64f32f8e8bcf92a56eef701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:34 +0000
Subject: [PATCH 09/41] fix: BFGS_update divided by zero when the Hessian is
 singular along the step

---
 src/solvers/bfgs.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/solvers/bfgs.hpp b/src/solvers/bfgs.hpp
index ac9e475..d67d001 100644
--- a/src/solvers/bfgs.hpp
+++ b/src/solvers/bfgs.hpp
@@ -47,7 +47,10 @@ void BFGS_update(Eigen::MatrixBase<Mat>& B, const Eigen::MatrixBase<Vec>& s, con
         return;
     }
 
-    B.noalias() += -Bs * Bs.transpose() / sBs;
+    // B is singular along s: there is nothing to remove
+    if (sBs != Scalar(0)) {
+        B.noalias() += -Bs * Bs.transpose() / sBs;
+    }
     B.noalias() += r * r.transpose() / sr;
 }
 
-- 
2.43.0


From 15298fe2ba0a1429e506cb0ca0d179a3418f3629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:34 +0000
Subject: [PATCH 10/41] fix: SR1_update divided by zero for a zero step or a
 perfect prediction

---
 src/solvers/sr1.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solvers/sr1.hpp b/src/solvers/sr1.hpp
index 3dd289b..c18192d 100644
--- a/src/solvers/sr1.hpp
+++ b/src/solvers/sr1.hpp
@@ -29,7 +29,7 @@ void SR1_update(Eigen::MatrixBase<Mat>& B, const Eigen::MatrixBase<Vec>& s, cons
     const Scalar scaling = v.dot(s);
     const Scalar eps = Scalar(1e-6); // as suggested by Nocedal
     // safeguard
-    if(std::abs(scaling) >= eps * s.template lpNorm<2>() * v.template lpNorm<2>())
+    if(std::abs(scaling) > eps * s.template lpNorm<2>() * v.template lpNorm<2>())
         B.noalias() += v * v.transpose() / scaling;
 
     //else: leave matrix unchanged B_{k+1} = B_{k}
-- 
2.43.0


From 51155c341271941df5e61603f697d26d29810731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:52 +0000
Subject: [PATCH 11/41] fix: Chebyshev polynomials were NaN when rounding moves
 the argument outside [-1, 1]

---
 src/polynomials/ebyshev.hpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/polynomials/ebyshev.hpp b/src/polynomials/ebyshev.hpp
index e010e75..93d3147 100644
--- a/src/polynomials/ebyshev.hpp
+++ b/src/polynomials/ebyshev.hpp
@@ -59,7 +59,7 @@ public:
 
     /** Evaluate Chebyshev polynomial of order n*/
     scalar_t eval(const scalar_t &arg, const int &n){return Tn(arg, n);}
-    static scalar_t eval(const scalar_t &arg){return std::cos(PolyOrder * std::acos(arg));}
+    static scalar_t eval(const scalar_t &arg){return Tn(arg, PolyOrder);}
 
     /** Evaluate density function associated with Chebyshev basis */
     static scalar_t weight(const scalar_t &arg){return 1.0 / std::sqrt(1 - std::pow(arg, 2));}
@@ -90,7 +90,20 @@ private:
     q_weights_t _NormFactors;
 
     /** Evaluate Chebyshev polynomial of order n*/
-    inline scalar_t Tn(const scalar_t &arg, const int &n){return std::cos(n * std::acos(arg));}
+    static inline scalar_t Tn(const scalar_t &arg, const int &n)
+    {
+        /** three-term recurrence: unlike cos(n * acos(arg)) defined when rounding moves arg outside [-1, 1] */
+        scalar_t t_prev = scalar_t(1), t = arg;
+        if(n == 0)
+            return t_prev;
+        for(int k = 1; k < n; ++k)
+        {
+            const scalar_t t_next = scalar_t(2) * arg * t - t_prev;
+            t_prev = t;
+            t = t_next;
+        }
+        return t;
+    }
 };
 
 /** @brief constructor */
-- 
2.43.0


From 6197ba15d2429b00dc29894ae5e1bf38b0751806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:52 +0000
Subject: [PATCH 12/41] fix: last Chebyshev normalisation factor was twice too
 large on the Gauss-Lobatto grid

---
 src/polynomials/ebyshev.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/polynomials/ebyshev.hpp b/src/polynomials/ebyshev.hpp
index 93d3147..74ef45b 100644
--- a/src/polynomials/ebyshev.hpp
+++ b/src/polynomials/ebyshev.hpp
@@ -188,6 +188,7 @@ Chebyshev<PolyOrder, Qtype, Scalar>::compute_norm_factors() noexcept
 {
     q_weights_t w = q_weights_t::Constant(static_cast<Scalar>(Scalar(2) / M_PI));
     w[0] *= Scalar(0.5);
+    w[PolyOrder] *= Scalar(0.5); // the discrete norm of the last polynomial on the Lobatto grid is pi
     return w;
 }
 
-- 
2.43.0


From 7f29c0015a82cbf1da26649c1caeafe1057e348f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:52 +0000
Subject: [PATCH 13/41] fix: corner entries of the Legendre differentiation
 matrix had the wrong sign

---
 src/polynomials/legendre.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/polynomials/legendre.hpp b/src/polynomials/legendre.hpp
index 4ac4bdb..7a54107 100644
--- a/src/polynomials/legendre.hpp
+++ b/src/polynomials/legendre.hpp
@@ -163,8 +163,8 @@ Legendre<PolyOrder, Qtype, Scalar>::compute_diff_matrix() noexcept
     basis_t Ln    = compute_basis();
 
     /** use formula from Canuto-Quarteroni */
-    D(0,0) = (POLY_ORDER + 1) * POLY_ORDER / static_cast<scalar_t>(4);
-    D(POLY_ORDER, POLY_ORDER) = -D(0,0);
+    D(POLY_ORDER, POLY_ORDER) = (POLY_ORDER + 1) * POLY_ORDER / static_cast<scalar_t>(4); // the nodes are ascending
+    D(0,0) = -D(POLY_ORDER, POLY_ORDER);
 
     for(Eigen::Index i = 0; i < NUM_NODES; ++i)
     {
-- 
2.43.0


From c60c29691f5c1a026a0da9ed86d0a934816b0aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:52 +0000
Subject: [PATCH 14/41] fix: getGalerkinTensor returned uninitialised memory

---
 src/polynomials/legendre.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/polynomials/legendre.hpp b/src/polynomials/legendre.hpp
index 7a54107..44ee950 100644
--- a/src/polynomials/legendre.hpp
+++ b/src/polynomials/legendre.hpp
@@ -119,7 +119,7 @@ Legendre<PolyOrder, Qtype, Scalar>::Legendre()
     _QuadWeights = compute_quad_weights();
     _NormFactors = compute_norm_factors();
 
-    //compute_galerkin_tensor();
+    compute_galerkin_tensor();
 }
 
 /** @brief : compute nodal points for the Legendre collocation scheme */
-- 
2.43.0


From aa5e1bb7b77350831e1dcc5958be8600397ae360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:52 +0000
Subject: [PATCH 15/41] fix: poly_mul overwrote partial sums and read
 uninitialised degrees of zero polynomials

---
 src/polynomials/polynomial_math.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/polynomials/polynomial_math.hpp b/src/polynomials/polynomial_math.hpp
index d787c09..96d614a 100644
--- a/src/polynomials/polynomial_math.hpp
+++ b/src/polynomials/polynomial_math.hpp
@@ -52,7 +52,7 @@ typename Derived::PlainObject poly_mul(const Eigen::MatrixBase<Derived> &p1, con
     Scalar eps = std::numeric_limits<Scalar>::epsilon();
 
     /** detect nonzeros */
-    int nnz_p1, nnz_p2;
+    int nnz_p1 = 0, nnz_p2 = 0;
     for(int i = 0; i < p1_size; ++i)
     {
         if(std::fabs(p1[i]) >= eps)
@@ -68,7 +68,7 @@ typename Derived::PlainObject poly_mul(const Eigen::MatrixBase<Derived> &p1, con
             /** truncate higher orders if neccessary */
             if( (i+j) == p1_size )
                 break;
-            product[i+j] = p1[j] * p2[i];
+            product[i+j] += p1[j] * p2[i];
         }
     }
 
-- 
2.43.0


From ce2014c6b92754a48c6465fa3140c8d4acb395e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:36 +0000
Subject: [PATCH 16/41] fix: EquidistantCubicSpline read one column past its
 coefficients at and beyond the right end

---
 src/polynomials/splines.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/polynomials/splines.hpp b/src/polynomials/splines.hpp
index 6f193c6..d582938 100644
--- a/src/polynomials/splines.hpp
+++ b/src/polynomials/splines.hpp
@@ -80,7 +80,7 @@ public:
         #undef min
         #undef max
 #endif
-        idx = std::max(Eigen::Index(0), std::min(idx, m_coeffs.cols())); // clip idx stay within the spline bounds
+        idx = std::max(Eigen::Index(0), std::min(idx, m_coeffs.cols() - 1)); // clip idx stay within the spline bounds
 
         // evaluate polynomial using Horner's method
         return m_coeffs.col(idx)(0) + x * (m_coeffs.col(idx)(1) + x * (m_coeffs.col(idx)(2) + x * m_coeffs.col(idx)(3)));
-- 
2.43.0


From 7fe70268dc4713592b75faeee16a07971bb199ca Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 18:46:07 +0000
Subject: [PATCH 17/41] fix: re-evaluated sparse inequality Jacobian was wrong
 unless NG == NX

---
 src/control/continuous_ocp.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/control/continuous_ocp.hpp b/src/control/continuous_ocp.hpp
index 3e33c58..c679ab9 100644
--- a/src/control/continuous_ocp.hpp
+++ b/src/control/continuous_ocp.hpp
@@ -1098,8 +1098,8 @@ ContinuousOCP<OCP, Approximation, MatrixFormat>::_inequalities_linearised_sparse
                                                                                         nlp_ineq_jacobian_t &jacobian) noexcept
 {
     eigen_assert(jacobian.outerSize() == VAR_SIZE);
-    /** compute jacoabian of dynamics */
-    Eigen::Matrix<scalar_t, NX, NX + NU + NP> jac;
+    /** compute jacoabian of inequality constraints */
+    Eigen::Matrix<scalar_t, NG, NX + NU + NP> jac;
 
     /** initialize AD veriables */
     m_ad_p = var.template segment<NP>(VARX_SIZE + VARU_SIZE);
-- 
2.43.0


From cfad9d7ad599b6e8dc29137bea8973a3ee62a425 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 18:46:07 +0000
Subject: [PATCH 18/41] fix: Hessian of the Mayer term read the controls
 through a segment of NX entries

---
 src/control/continuous_ocp.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/control/continuous_ocp.hpp b/src/control/continuous_ocp.hpp
index c679ab9..c512bfd 100644
--- a/src/control/continuous_ocp.hpp
+++ b/src/control/continuous_ocp.hpp
@@ -1332,7 +1332,7 @@ ContinuousOCP<OCP, Approximation, MatrixFormat>::cost_gradient_hessian(const Eig
     for(int i = 0; i < NX; i++)
         m_ad2_x(i).value().value() = var.template head<NX>()(i);
     for(int i = 0; i < NU; i++)
-        m_ad2_u(i).value().value() = var.template segment<NX>(VARX_SIZE)(i);
+        m_ad2_u(i).value().value() = var.template segment<NU>(VARX_SIZE)(i);
 
     mayer_term<ad2_scalar_t>(m_ad2_x, m_ad2_u, m_ad2_p, p, time_nodes(0), mayer_cost);
     cost += mayer_cost.value().value();
@@ -1592,7 +1592,7 @@ void ContinuousOCP<OCP, Approximation, MatrixFormat>::_cost_grad_hess_sparse(con
     for(int i = 0; i < NX; i++)
         m_ad2_x(i).value().value() = var.template head<NX>()(i);
     for(int i = 0; i < NU; i++)
-        m_ad2_u(i).value().value() = var.template segment<NX>(VARX_SIZE)(i);
+        m_ad2_u(i).value().value() = var.template segment<NU>(VARX_SIZE)(i);
 
     mayer_term<ad2_scalar_t>(m_ad2_x, m_ad2_u, m_ad2_p, p, time_nodes(0), mayer_cost);
     cost += mayer_cost.value().value();
@@ -1849,7 +1849,7 @@ void ContinuousOCP<OCP, Approximation, MatrixFormat>::_cost_grad_hess_sparse_upd
     for(int i = 0; i < NX; i++)
         m_ad2_x(i).value().value() = var.template head<NX>()(i);
     for(int i = 0; i < NU; i++)
-        m_ad2_u(i).value().value() = var.template segment<NX>(VARX_SIZE)(i);
+        m_ad2_u(i).value().value() = var.template segment<NU>(VARX_SIZE)(i);
 
     mayer_term<ad2_scalar_t>(m_ad2_x, m_ad2_u, m_ad2_p, p, time_nodes(0), mayer_cost);
     cost += mayer_cost.value().value();
-- 
2.43.0


From dfb92153205cc07d32cb56c1ad8415ebbfd55a50 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 18:46:07 +0000
Subject: [PATCH 19/41] fix: parameter block of the dense Mayer Hessian was
 taken from and added to the wrong corner

---
 src/control/continuous_ocp.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/control/continuous_ocp.hpp b/src/control/continuous_ocp.hpp
index c512bfd..1ea0ab3 100644
--- a/src/control/continuous_ocp.hpp
+++ b/src/control/continuous_ocp.hpp
@@ -1351,7 +1351,7 @@ ContinuousOCP<OCP, Approximation, MatrixFormat>::cost_gradient_hessian(const Eig
     /** diagonal  */
     cost_hessian.template topLeftCorner<NX, NX>() += hes.template topLeftCorner<NX, NX>();
     cost_hessian.template block<NU, NU>(VARX_SIZE, VARX_SIZE) += hes.template block<NU, NU>(NX, NX);
-    cost_hessian.template bottomLeftCorner<NP, NP>() += hes.template bottomLeftCorner<NP, NP>();
+    cost_hessian.template bottomRightCorner<NP, NP>() += hes.template bottomRightCorner<NP, NP>();
 
     /** dxdu */
     cost_hessian.template block<NX, NU>(0, VARX_SIZE) += hes.template block<NX, NU>(0, NX);
-- 
2.43.0


From f3f4ba2fd629ce16a6dc8697f560ecef7d581035 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 18:46:07 +0000
Subject: [PATCH 20/41] fix: first evaluation of the sparse cost Hessian mixed
 up its parameter blocks

---
 src/control/continuous_ocp.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/control/continuous_ocp.hpp b/src/control/continuous_ocp.hpp
index 1ea0ab3..91b55a5 100644
--- a/src/control/continuous_ocp.hpp
+++ b/src/control/continuous_ocp.hpp
@@ -1537,7 +1537,7 @@ void ContinuousOCP<OCP, Approximation, MatrixFormat>::_cost_grad_hess_sparse(con
                 for(Eigen::Index j = 0; j < NP; ++j)
                 {
                     for(Eigen::Index r = 0; r < NX; ++r)
-                        cost_hessian.insert((k + shift) * NX + r, VARX_SIZE + VARU_SIZE + j) = hes(r, j + NX + NP);
+                        cost_hessian.insert((k + shift) * NX + r, VARX_SIZE + VARU_SIZE + j) = hes(r, j + NX + NU);
                 }
 
                 /** du^2 */
@@ -1572,7 +1572,7 @@ void ContinuousOCP<OCP, Approximation, MatrixFormat>::_cost_grad_hess_sparse(con
                 for(Eigen::Index j = 0; j < NU; ++j)
                 {
                     for(Eigen::Index r = 0; r < NP; ++r)
-                        cost_hessian.insert(VARX_SIZE + VARU_SIZE + r, (k + shift) * NU + VARX_SIZE + j) = hes(r + NX + NU, j + NU);
+                        cost_hessian.insert(VARX_SIZE + VARU_SIZE + r, (k + shift) * NU + VARX_SIZE + j) = hes(r + NX + NU, j + NX);
                 }
 
             }
-- 
2.43.0


From b17693853e78237ae92380b52ead9f4f3ff2a72b Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 18:46:07 +0000
Subject: [PATCH 21/41] fix: cost_gradient of a problem without Lagrange term
 used stale or uninitialised derivatives

---
 src/control/continuous_ocp.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/control/continuous_ocp.hpp b/src/control/continuous_ocp.hpp
index 91b55a5..9f45eb5 100644
--- a/src/control/continuous_ocp.hpp
+++ b/src/control/continuous_ocp.hpp
@@ -1217,7 +1217,7 @@ void ContinuousOCP<OCP, Approximation, MatrixFormat>::cost_gradient(const Eigen:
     int t = 0;
     /** not generic for other collocation schemes : redo*/
     m_ad_p = var.template segment<NP>(VARX_SIZE + VARU_SIZE);
-    m_ad_cost.value() = 0;
+    m_ad_cost = ad_scalar_t(0);
     for (int s = 0; s < NUM_SEGMENTS; s++)
     {
         int shift = s * POLY_ORDER;
-- 
2.43.0


From c14bf6c24d5331c513b545f41bf8c0305507d267 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 18:47:07 +0000
Subject: [PATCH 22/41] fix: short overloads of
 ContinuousOCP::lagrangian_gradient(_hessian) did not compile

---
 src/control/continuous_ocp.hpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/control/continuous_ocp.hpp b/src/control/continuous_ocp.hpp
index 9f45eb5..9486bfc 100644
--- a/src/control/continuous_ocp.hpp
+++ b/src/control/continuous_ocp.hpp
@@ -1944,8 +1944,12 @@ void ContinuousOCP<OCP, Approximation, MatrixFormat>::lagrangian_gradient(const
     nlp_ineq_constraints_t g;
     nlp_eq_jacobian_t jac_c;
     nlp_ineq_jacobian_t jac_g;
+    c.resize(NUM_EQ);
+    g.resize(NUM_INEQ);
+    jac_c.resize(NUM_EQ, VAR_SIZE);
+    jac_g.resize(NUM_INEQ, VAR_SIZE);
     this->cost_gradient(var, p, _lagrangian, lag_gradient);
-    this->equalities_linerised(var, p, c, jac_c);
+    this->equalities_linearised(var, p, c, jac_c);
     this->inequalities_linearised(var, p, g, jac_g);
     //_lagrangian += c.dot(lam.template head<NUM_EQ>()); // do not compute at all??
     /** @badcode: replace with block products ???*/
@@ -2027,8 +2031,12 @@ void ContinuousOCP<OCP, Approximation, MatrixFormat>::lagrangian_gradient_hessia
     nlp_ineq_constraints_t g;
     nlp_eq_jacobian_t jac_c;
     nlp_ineq_jacobian_t jac_g;
+    c.resize(NUM_EQ);
+    g.resize(NUM_INEQ);
+    jac_c.resize(NUM_EQ, VAR_SIZE);
+    jac_g.resize(NUM_INEQ, VAR_SIZE);
     this->cost_gradient_hessian(var, p, _lagrangian, lag_gradient, lag_hessian);
-    this->equalities_linerised(var, p, c, jac_c);
+    this->equalities_linearised(var, p, c, jac_c);
     this->inequalities_linearised(var, p, g, jac_g);
     //_lagrangian += c.dot(lam.template head<NUM_EQ>()); // do not compute at all??
     /** @badcode: replace with block products ???*/
@@ -2068,7 +2076,7 @@ void ContinuousOCP<OCP, Approximation, MatrixFormat>::lagrangian_gradient_hessia
         }
 
         // constraints contribution
-        inequality_constraints<ad2_scalar_t>(m_ad2_x, m_ad2_u, m_ad2_p, p, static_cast<ad2_scalar_t>(time_nodes(k)), ad2_g);
+        inequality_constraints<ad2_scalar_t>(m_ad2_x, m_ad2_u, m_ad2_p, p, time_nodes(k), ad2_g);
         for(int n = 0; n < NG; n++)
         {
             scalar_t coeff = lam(n + k * NG + NUM_EQ);
-- 
2.43.0


From 3cd0a9df9fedaff09386f9553f705bb58aff0ef2 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 18:48:48 +0000
Subject: [PATCH 23/41] fix: control-parameter block of shared nodes lost on
 the first sparse Hessian evaluation

---
 src/control/continuous_ocp.hpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/control/continuous_ocp.hpp b/src/control/continuous_ocp.hpp
index 9486bfc..9de83fb 100644
--- a/src/control/continuous_ocp.hpp
+++ b/src/control/continuous_ocp.hpp
@@ -1481,11 +1481,9 @@ void ContinuousOCP<OCP, Approximation, MatrixFormat>::_cost_grad_hess_sparse(con
                 /** dudp */
                 for(Eigen::Index j = 0; j < NP; ++j)
                 {
-                    std::transform(cost_hessian.valuePtr() + cost_hessian.outerIndexPtr()[VARX_SIZE + VARU_SIZE + j] + VARX_SIZE + (k + shift) * NU,
-                                   cost_hessian.valuePtr() + cost_hessian.outerIndexPtr()[VARX_SIZE + VARU_SIZE + j] + VARX_SIZE + (k + shift) * NU + NU,
-                                   hes.col(j + NX + NU).data() + NX,
-                                   cost_hessian.valuePtr() + cost_hessian.outerIndexPtr()[VARX_SIZE + VARU_SIZE + j] + VARX_SIZE + (k + shift) * NU,
-                                   std::plus<scalar_t>());
+                    // the column is still being filled: the offset of a row is not known yet
+                    for(Eigen::Index r = 0; r < NU; ++r)
+                        cost_hessian.coeffRef((k + shift) * NU + VARX_SIZE + r, VARX_SIZE + VARU_SIZE + j) += hes(r + NX, j + NX + NU);
                 }
                 /** dp^2 */
                 /**
-- 
2.43.0


From 98469ac5550732404fb18699657b72af6970e236 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 18:53:17 +0000
Subject: [PATCH 24/41] fix: sparse block BFGS update divided by zero for a
 zero step or a singular Hessian

---
 src/control/continuous_ocp.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/control/continuous_ocp.hpp b/src/control/continuous_ocp.hpp
index 9de83fb..5d891cf 100644
--- a/src/control/continuous_ocp.hpp
+++ b/src/control/continuous_ocp.hpp
@@ -2318,8 +2318,14 @@ ContinuousOCP<OCP, Approximation, MatrixFormat>::hessian_update_impl(Eigen::Ref<
 
     const nlp_variable_t v = hessian * s;
     const scalar_t scaling = s.dot(v);
-    const scalar_t scaling_inv = scalar_t(1) / scaling;
     const scalar_t sy  = s.dot(y);
+
+    // no (damped) curvature information: keep the Hessian, as BFGS_update() does
+    if((sy >= 0.2 * scaling ? sy : scalar_t(0.2) * scaling) < std::numeric_limits<scalar_t>::epsilon())
+        return;
+
+    // the Hessian is singular along s: there is nothing to remove
+    const scalar_t scaling_inv = (scaling != scalar_t(0)) ? scalar_t(1) / scaling : scalar_t(0);
     const scalar_t sy_inv = scalar_t(1) / sy;
     nlp_variable_t r;
 
-- 
2.43.0


From 430e1829f455c03de4c629a6febb8745c39cfcd7 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 19:43:44 +0000
Subject: [PATCH 25/41] fix: MPC wrapper interpolates at absolute time for
 horizons that do not start at zero

---
 src/control/mpc_wrapper.hpp | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/control/mpc_wrapper.hpp b/src/control/mpc_wrapper.hpp
index 8d05fa9..0951615 100644
--- a/src/control/mpc_wrapper.hpp
+++ b/src/control/mpc_wrapper.hpp
@@ -47,7 +47,7 @@ public:
         time_grid = this->ocp().time_nodes.reverse();
         time_nodes = time_grid.template head<OCP::nodes_t::RowsAtCompileTime>();
 
-        polympc::LagrangeSpline::compute_lagrange_basis(time_nodes, m_basis);
+        compute_basis();
         sgm_length = (m_solver.get_problem().t_stop - m_solver.get_problem().t_start) / num_segms;
         nodes_per_segm = std::floor(num_nodes / num_segms);
     }
@@ -73,6 +73,13 @@ public:
     scalar_t sgm_length{1.0};
     int nodes_per_segm{1};
 
+    /** Lagrange basis of the first segment; its argument is the time since the beginning of the segment */
+    inline void compute_basis() noexcept
+    {
+        const typename OCP::nodes_t local_nodes = time_nodes - OCP::nodes_t::Constant(time_nodes(0));
+        polympc::LagrangeSpline::compute_lagrange_basis(local_nodes, m_basis);
+    }
+
     /** set MPC optmisation limits */
     inline void set_time_limits(const scalar_t& t0, const scalar_t& tf) noexcept
     {
@@ -81,7 +88,7 @@ public:
         // update time grid and Lagrange interpolator
         time_grid = this->ocp().time_nodes.reverse();
         time_nodes = time_grid.template head<OCP::nodes_t::RowsAtCompileTime>();
-        polympc::LagrangeSpline::compute_lagrange_basis(time_nodes, m_basis);
+        compute_basis();
         sgm_length = (tf - t0) / num_segms;
     }
 
@@ -245,10 +252,11 @@ public:
     inline state_t solution_x_at(const scalar_t& t) const noexcept
     {
         auto x_reshaped = solution_x_reshaped();
-        Eigen::Index idx = (Eigen::Index)std::floor( t / sgm_length);
+        const scalar_t t_rel = t - time_grid(0); // time since the beginning of the horizon
+        Eigen::Index idx = (Eigen::Index)std::floor(t_rel / sgm_length);
         idx = std::max(Eigen::Index(0), std::min(idx, (Eigen::Index)num_segms - 1)); // clip idx to stay within the spline bounds
 
-        state_t state = polympc::LagrangeSpline::eval(t - idx * sgm_length, x_reshaped.template block<nx,
+        state_t state = polympc::LagrangeSpline::eval(t_rel - idx * sgm_length, x_reshaped.template block<nx,
                                                       OCP::nodes_t::RowsAtCompileTime>(0, idx * nodes_per_segm), m_basis);
 
         return state;
@@ -271,10 +279,11 @@ public:
     inline control_t solution_u_at(const scalar_t& t) const noexcept
     {
         auto u_reshaped = solution_u_reshaped();
-        Eigen::Index idx = (Eigen::Index)std::floor( t / sgm_length);
+        const scalar_t t_rel = t - time_grid(0); // time since the beginning of the horizon
+        Eigen::Index idx = (Eigen::Index)std::floor(t_rel / sgm_length);
         idx = std::max(Eigen::Index(0), std::min(idx, (Eigen::Index)num_segms - 1)); // clip idx to stay within the spline bounds
 
-        control_t state = polympc::LagrangeSpline::eval(t - idx * sgm_length, u_reshaped.template block<nu,
+        control_t state = polympc::LagrangeSpline::eval(t_rel - idx * sgm_length, u_reshaped.template block<nu,
                                                       OCP::nodes_t::RowsAtCompileTime>(0, idx * nodes_per_segm), m_basis);
 
         return state;
-- 
2.43.0


From a3f4626679c4d23f386696f1009afef919a451d6 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 19:55:54 +0000
Subject: [PATCH 26/41] fix: compute_lagrange_basis allocated dynamic memory
 for fixed-size nodes

---
 src/polynomials/splines.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/polynomials/splines.hpp b/src/polynomials/splines.hpp
index d582938..1858f74 100644
--- a/src/polynomials/splines.hpp
+++ b/src/polynomials/splines.hpp
@@ -104,12 +104,14 @@ public:
     template<typename Derived, typename Derived2>
     static void compute_lagrange_basis(const Eigen::MatrixBase<Derived>& nodes, Eigen::MatrixBase<Derived2>& basis) noexcept
     {
+        // fixed-size nodes do not need dynamic memory
+        constexpr int num_roots = (int(Derived::RowsAtCompileTime) == int(Eigen::Dynamic)) ? int(Eigen::Dynamic) : int(Derived::RowsAtCompileTime) - 1;
         typename Derived::PlainObject polynomial(nodes.rows()); polynomial.setZero();
         basis = Eigen::MatrixBase<Derived2>::Zero(nodes.rows(), nodes.rows());
 
         for(unsigned i = 0; i < basis.rows(); ++i)
         {
-            Eigen::Matrix<typename Derived::Scalar, Eigen::Dynamic, 1> roots(nodes.rows() - 1);
+            Eigen::Matrix<typename Derived::Scalar, num_roots, 1> roots(nodes.rows() - 1);
             unsigned count = 0;
             for(unsigned j = 0; j < nodes.rows(); ++j)
             {    if(i != j)
-- 
2.43.0


From 043639527c3d273eb82c0668aad713fd90c182d1 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 20:06:28 +0000
Subject: [PATCH 27/41] fix: pinv read past the singular values of wide
 matrices and failed for tall ones; tolerance relative to the matrix

---
 src/control/lqr.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/control/lqr.hpp b/src/control/lqr.hpp
index 4596340..d2207ca 100644
--- a/src/control/lqr.hpp
+++ b/src/control/lqr.hpp
@@ -10,12 +10,14 @@
 Eigen::MatrixXd pinv(const Eigen::Ref<const Eigen::MatrixXd> mat) noexcept
 {
     /** compute SVD */
-    Eigen::JacobiSVD<Eigen::MatrixXd> svd(mat, Eigen::ComputeFullU | Eigen::ComputeFullV);
-    const double pinvtol = 1e-6;
+    Eigen::JacobiSVD<Eigen::MatrixXd> svd(mat, Eigen::ComputeThinU | Eigen::ComputeThinV);
     Eigen::VectorXd singular_values = svd.singularValues();
+    /** tolerance relative to the largest singular value */
+    const double pinvtol = singular_values.size() == 0 ? 0.0 :
+                           singular_values(0) * std::numeric_limits<double>::epsilon() * std::max(mat.rows(), mat.cols());
     /** make a copy */
     Eigen::VectorXd singular_values_inv = singular_values;
-    for ( int i = 0; i < mat.cols(); ++i)
+    for ( int i = 0; i < singular_values.size(); ++i)
     {
         if ( singular_values(i) > pinvtol )
             singular_values_inv(i) = 1.0 / singular_values(i);
-- 
2.43.0


From 1c4a913b6207b244f14e6a6a9ff30ad6721f2e18 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 20:06:28 +0000
Subject: [PATCH 28/41] fix: lyapunov was wrong for matrices with complex
 eigenvalues

---
 src/control/lqr.hpp | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/src/control/lqr.hpp b/src/control/lqr.hpp
index d2207ca..19f3fe0 100644
--- a/src/control/lqr.hpp
+++ b/src/control/lqr.hpp
@@ -32,26 +32,25 @@ Eigen::MatrixXd lyapunov(const Eigen::Ref<const Eigen::MatrixXd> A, const Eigen:
 {
     const Eigen::Index m = Q.cols();
     /** compute Schur decomposition of A */
-    Eigen::RealSchur<Eigen::MatrixXd> schur(A);
-    Eigen::MatrixXd T = schur.matrixT();
-    Eigen::MatrixXd U = schur.matrixU();
+    Eigen::ComplexSchur<Eigen::MatrixXd> schur(A);
+    Eigen::MatrixXcd T = schur.matrixT();
+    Eigen::MatrixXcd U = schur.matrixU();
 
-    Eigen::MatrixXd Q1;
-    Q1.noalias() = (U.transpose() * Q) * U;
-    Eigen::MatrixXd X = Eigen::MatrixXd::Zero(m, m);
-    Eigen::MatrixXd E = Eigen::MatrixXd::Identity(m,m);
+    Eigen::MatrixXcd Q1;
+    Q1.noalias() = (U.adjoint() * Q) * U;
+    Eigen::MatrixXcd X = Eigen::MatrixXcd::Zero(m, m);
+    Eigen::MatrixXcd E = Eigen::MatrixXcd::Identity(m,m);
 
-    X.col(m-1).noalias() = (T + T(m-1,m-1) * E).partialPivLu().solve(Q1.col(m-1));
-    Eigen::VectorXd v;
+    X.col(m-1) = (T + std::conj(T(m-1,m-1)) * E).partialPivLu().solve(Q1.col(m-1));
+    Eigen::VectorXcd v;
 
     for(Eigen::Index i = m-2; i >= 0; --i)
     {
-        v.noalias() = Q1.col(i) - X.block(0, i+1, m, m-(i+1)) * T.block(i, i+1, 1, m-(i+1)).transpose();
-        X.col(i) = (T + T(i,i) * E).partialPivLu().solve(v);
+        v.noalias() = Q1.col(i) - X.block(0, i+1, m, m-(i+1)) * T.block(i, i+1, 1, m-(i+1)).adjoint();
+        X.col(i) = (T + std::conj(T(i,i)) * E).partialPivLu().solve(v);
     }
 
-    X.noalias() = (U * X) * U.transpose();
-    return X;
+    return ((U * X) * U.adjoint()).real();
 }
 
 double line_search_care(const double &a, const double &b, const double &c) noexcept
-- 
2.43.0


From 687a932bb9ece99dff2722b12937396928528d41 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 20:06:28 +0000
Subject: [PATCH 29/41] fix: care returned its initial guess, computed with a
 constant shift, instead of the Riccati solution

---
 src/control/lqr.hpp | 28 +++++++++-------------------
 1 file changed, 9 insertions(+), 19 deletions(-)

diff --git a/src/control/lqr.hpp b/src/control/lqr.hpp
index 19f3fe0..5bc9294 100644
--- a/src/control/lqr.hpp
+++ b/src/control/lqr.hpp
@@ -55,6 +55,10 @@ Eigen::MatrixXd lyapunov(const Eigen::Ref<const Eigen::MatrixXd> A, const Eigen:
 
 double line_search_care(const double &a, const double &b, const double &c) noexcept
 {
+    /** the quartic is (almost) quadratic: full Newton step */
+    if(c <= 1e-10 * a)
+        return 1.0;
+
     Eigen::Matrix<double, 5, 1> poly;
     Eigen::Matrix<double, 4, 1> poly_derivative;
     poly_derivative << -2*a, 2*(a-2*b), 6*b, 4*c;
@@ -98,14 +102,12 @@ Eigen::MatrixXd newton_ls_care(const Eigen::Ref<const Eigen::MatrixXd> A, const
     //Eigen::EigenSolver<Eigen::MatrixXd> eig(A - B * X0);
     //std::cout << "INIT X0: \n" << eig.eigenvalues() << "\n";
     const double tol = 1e-5;
-    const int kmax   = 2;
+    const int kmax   = 50;
     Eigen::MatrixXd X = X0;
     double err = std::numeric_limits<double>::max();
     int k = 0;
     Eigen::MatrixXd RX, H, V;
 
-    std::cout << "C: " << C << "\n";
-
     /** temporary */
     double tk = 1;
 
@@ -116,9 +118,6 @@ Eigen::MatrixXd newton_ls_care(const Eigen::Ref<const Eigen::MatrixXd> A, const
        /** newton update */
        H = lyapunov((A - B * X).transpose(), -RX);
 
-       std::cout << "A': " << (A - B * X).transpose() << "\n";
-       std::cout << "RX: " << RX << "\n";
-       std::cout << "H: " << H << "\n";
        /** exact line search */
        V.noalias() = H * B * H;
        double a = (RX * RX).trace();
@@ -128,15 +127,14 @@ Eigen::MatrixXd newton_ls_care(const Eigen::Ref<const Eigen::MatrixXd> A, const
        /** inner loop to accept step */
        X.noalias() += tk * H;
        //err = tk * (H.lpNorm<1>() / X.lpNorm<1>());
-       err = RX.norm();
-       std::cout << "iter: " << k << " err: " << err << " step: " << tk << "\n";
+       err = RX.norm() / (1.0 + C.norm());
        k++;
     }
 
     /** may be defect correction algorithm? */
 
     //std::cout << "CARE solve took " << k << " iterations. \n";
-    if(k == kmax)
+    if(err > tol)
         std::cerr << "CARE cannot be solved to specified precision :" << err << " max number of iteration exceeded! \n ";
 
     return X;
@@ -159,11 +157,7 @@ Eigen::MatrixXd init_newton_care(const Eigen::Ref<const Eigen::MatrixXd> A, cons
     double b = -eig_r.minCoeff();
     b = std::fmax(b, 0.0) + 0.5;
     Eigen::MatrixXd E = Eigen::MatrixXd::Identity(n, n);
-    Eigen::MatrixXd Z = lyapunov(TA + 100 * E, 2 * TD * TD.transpose());
-
-    std::cout << "1 arg: \n" << TA + 100 * E << "\n";
-    std::cout << "2 arg: \n" << 2 * TD * TD.transpose();
-    std::cout << "Z: \n" << Z << "\n";
+    Eigen::MatrixXd Z = lyapunov(TA + b * E, 2 * TD * TD.transpose());
 
     Eigen::MatrixXd X = (TD.transpose() * pinv(Z)) * U.transpose();
 
@@ -178,12 +172,8 @@ Eigen::MatrixXd init_newton_care(const Eigen::Ref<const Eigen::MatrixXd> A, cons
 Eigen::MatrixXd care(const Eigen::Ref<const Eigen::MatrixXd> A, const Eigen::Ref<const Eigen::MatrixXd> B,
                      const Eigen::Ref<const Eigen::MatrixXd> C) noexcept
 {
-    std::cout << "A: \n" << A << "\n";
-    std::cout << "B: \n" << B << "\n";
-
     Eigen::MatrixXd X0 = init_newton_care(A, B);
-    return X0;
-    //return newton_ls_care(A, B, C, X0);
+    return newton_ls_care(A, B, C, X0);
 }
 
 
-- 
2.43.0


From d3cdef1521a7b29c6c5739e016070a6903feb833 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 20:06:28 +0000
Subject: [PATCH 30/41] fix: lqr with a cross weight solved the wrong Riccati
 equation and failed on rejected weights

---
 src/control/lqr.hpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/control/lqr.hpp b/src/control/lqr.hpp
index 5bc9294..db98d30 100644
--- a/src/control/lqr.hpp
+++ b/src/control/lqr.hpp
@@ -178,7 +178,7 @@ Eigen::MatrixXd care(const Eigen::Ref<const Eigen::MatrixXd> A, const Eigen::Ref
 
 
 /** Linear Quadratic Regulator:
- * J(x) = INT { xQx + xMu + uRu }dt
+ * J(x) = INT { xQx + 2xMu + uRu }dt
  * xdot = Fx + Gu
  */
 void lqr(const Eigen::Ref<const Eigen::MatrixXd>& F, const Eigen::Ref<const Eigen::MatrixXd>& G, const Eigen::Ref<const Eigen::MatrixXd>& Q,
@@ -193,19 +193,20 @@ void lqr(const Eigen::Ref<const Eigen::MatrixXd>& F, const Eigen::Ref<const Eige
         QR.noalias() -= M * pinv(R) * M.transpose();
         Eigen::EigenSolver<Eigen::MatrixXd> solver(QR);
         Eigen::VectorXd values = solver.eigenvalues().real();
-        if( (values.array() < 0).any() )
+        if( (values.array() < -1e-10 * values.array().abs().maxCoeff()).any() )
         {
             std::cerr << "Weight matrices did not pass positivity check! \n";
-            S = Eigen::MatrixXd();
-            K = Eigen::MatrixXd();
+            S.setZero();
+            K.setZero();
+            return;
         }
     }
 
     /** formulate Ricatti equations */
     Eigen::MatrixXd invR = pinv(R);
-    Eigen::MatrixXd A = F - M * invR * (G).transpose();
+    Eigen::MatrixXd A = F - G * invR * M.transpose();
     Eigen::MatrixXd B = G * invR * (G).transpose();
-    Eigen::MatrixXd C = M * invR * M.transpose() + Q;
+    Eigen::MatrixXd C = Q - M * invR * M.transpose();
 
     //std::cout << "A: \n" << A << "\n";
     //std::cout << "B: \n" << B << "\n";
-- 
2.43.0


From 0d3e19d44c21eb44d65d39e6c6955eba91faaafd Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 20:06:28 +0000
Subject: [PATCH 31/41] fix: functions of lqr.hpp defined in a header without
 inline

---
 src/control/lqr.hpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/control/lqr.hpp b/src/control/lqr.hpp
index db98d30..5dbb9f0 100644
--- a/src/control/lqr.hpp
+++ b/src/control/lqr.hpp
@@ -7,7 +7,7 @@
 
 
 /** Moore-Penrose pseudo-inverse */
-Eigen::MatrixXd pinv(const Eigen::Ref<const Eigen::MatrixXd> mat) noexcept
+inline Eigen::MatrixXd pinv(const Eigen::Ref<const Eigen::MatrixXd> mat) noexcept
 {
     /** compute SVD */
     Eigen::JacobiSVD<Eigen::MatrixXd> svd(mat, Eigen::ComputeThinU | Eigen::ComputeThinV);
@@ -28,7 +28,7 @@ Eigen::MatrixXd pinv(const Eigen::Ref<const Eigen::MatrixXd> mat) noexcept
 
 
 /** Lyapunov equation */
-Eigen::MatrixXd lyapunov(const Eigen::Ref<const Eigen::MatrixXd> A, const Eigen::Ref<const Eigen::MatrixXd> Q) noexcept
+inline Eigen::MatrixXd lyapunov(const Eigen::Ref<const Eigen::MatrixXd> A, const Eigen::Ref<const Eigen::MatrixXd> Q) noexcept
 {
     const Eigen::Index m = Q.cols();
     /** compute Schur decomposition of A */
@@ -53,7 +53,7 @@ Eigen::MatrixXd lyapunov(const Eigen::Ref<const Eigen::MatrixXd> A, const Eigen:
     return ((U * X) * U.adjoint()).real();
 }
 
-double line_search_care(const double &a, const double &b, const double &c) noexcept
+inline double line_search_care(const double &a, const double &b, const double &c) noexcept
 {
     /** the quartic is (almost) quadratic: full Newton step */
     if(c <= 1e-10 * a)
@@ -95,7 +95,7 @@ double line_search_care(const double &a, const double &b, const double &c) noexc
 }
 
 /** CARE Newton iteration */
-Eigen::MatrixXd newton_ls_care(const Eigen::Ref<const Eigen::MatrixXd> A, const Eigen::Ref<const Eigen::MatrixXd> B,
+inline Eigen::MatrixXd newton_ls_care(const Eigen::Ref<const Eigen::MatrixXd> A, const Eigen::Ref<const Eigen::MatrixXd> B,
                                const Eigen::Ref<const Eigen::MatrixXd> C, const Eigen::Ref<const Eigen::MatrixXd> X0) noexcept
 {
     /** initial guess */
@@ -140,7 +140,7 @@ Eigen::MatrixXd newton_ls_care(const Eigen::Ref<const Eigen::MatrixXd> A, const
     return X;
 }
 
-Eigen::MatrixXd init_newton_care(const Eigen::Ref<const Eigen::MatrixXd> A, const Eigen::Ref<const Eigen::MatrixXd> B) noexcept
+inline Eigen::MatrixXd init_newton_care(const Eigen::Ref<const Eigen::MatrixXd> A, const Eigen::Ref<const Eigen::MatrixXd> B) noexcept
 {
     const Eigen::Index n = A.cols();
     const double tolerance = 1e-12;
@@ -169,7 +169,7 @@ Eigen::MatrixXd init_newton_care(const Eigen::Ref<const Eigen::MatrixXd> A, cons
     return X;
 }
 
-Eigen::MatrixXd care(const Eigen::Ref<const Eigen::MatrixXd> A, const Eigen::Ref<const Eigen::MatrixXd> B,
+inline Eigen::MatrixXd care(const Eigen::Ref<const Eigen::MatrixXd> A, const Eigen::Ref<const Eigen::MatrixXd> B,
                      const Eigen::Ref<const Eigen::MatrixXd> C) noexcept
 {
     Eigen::MatrixXd X0 = init_newton_care(A, B);
@@ -181,7 +181,7 @@ Eigen::MatrixXd care(const Eigen::Ref<const Eigen::MatrixXd> A, const Eigen::Ref
  * J(x) = INT { xQx + 2xMu + uRu }dt
  * xdot = Fx + Gu
  */
-void lqr(const Eigen::Ref<const Eigen::MatrixXd>& F, const Eigen::Ref<const Eigen::MatrixXd>& G, const Eigen::Ref<const Eigen::MatrixXd>& Q,
+inline void lqr(const Eigen::Ref<const Eigen::MatrixXd>& F, const Eigen::Ref<const Eigen::MatrixXd>& G, const Eigen::Ref<const Eigen::MatrixXd>& Q,
          const Eigen::Ref<const Eigen::MatrixXd>& R, const Eigen::Ref<const Eigen::MatrixXd>& M,
          Eigen::Ref<Eigen::MatrixXd> S, Eigen::Ref<Eigen::MatrixXd> K, const bool &check) noexcept
 {
-- 
2.43.0


From fc0347b14673b61dd53c8ed46ea59a6538cb583a Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 20:11:07 +0000
Subject: [PATCH 32/41] fix: line_search_care evaluated its polynomial at the
 upper bound in integer arithmetic

---
 src/control/lqr.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/control/lqr.hpp b/src/control/lqr.hpp
index 5dbb9f0..e2c5610 100644
--- a/src/control/lqr.hpp
+++ b/src/control/lqr.hpp
@@ -72,7 +72,7 @@ inline double line_search_care(const double &a, const double &b, const double &c
 
     /** compute values on the bounds */
     double lb_value = Eigen::poly_eval(poly, 1e-5);
-    double ub_value = Eigen::poly_eval(poly, 2);
+    double ub_value = Eigen::poly_eval(poly, 2.0);
 
     double argmin = lb_value < ub_value ? 1e-5 : 2;
 
-- 
2.43.0


From 0fe6b5ad14a1f9945c8487f37522effaa6a3bb49 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 20:17:05 +0000
Subject: [PATCH 33/41] fix: newton_ls_care stalled on tiny steps far from the
 solution

---
 src/control/lqr.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/control/lqr.hpp b/src/control/lqr.hpp
index e2c5610..5091908 100644
--- a/src/control/lqr.hpp
+++ b/src/control/lqr.hpp
@@ -124,6 +124,8 @@ inline Eigen::MatrixXd newton_ls_care(const Eigen::Ref<const Eigen::MatrixXd> A,
        double b = (RX * V).trace();
        double c = (V * V).trace();
        tk = line_search_care(a,b,c);
+       /** tiny steps would take hundreds of iterations: the full step keeps A - B * X stable as well */
+       if(tk < 0.1) tk = 1.0;
        /** inner loop to accept step */
        X.noalias() += tk * H;
        //err = tk * (H.lpNorm<1>() / X.lpNorm<1>());
-- 
2.43.0


From 06b434181226d8395cb39f58c6b74961eb2d825b Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 20:22:47 +0000
Subject: [PATCH 34/41] fix: newton_ls_care stopped on an absolute residual

---
 src/control/lqr.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/control/lqr.hpp b/src/control/lqr.hpp
index 5091908..1a48054 100644
--- a/src/control/lqr.hpp
+++ b/src/control/lqr.hpp
@@ -14,7 +14,7 @@ inline Eigen::MatrixXd pinv(const Eigen::Ref<const Eigen::MatrixXd> mat) noexcep
     Eigen::VectorXd singular_values = svd.singularValues();
     /** tolerance relative to the largest singular value */
     const double pinvtol = singular_values.size() == 0 ? 0.0 :
-                           singular_values(0) * std::numeric_limits<double>::epsilon() * std::max(mat.rows(), mat.cols());
+                           1e-12 * singular_values(0);
     /** make a copy */
     Eigen::VectorXd singular_values_inv = singular_values;
     for ( int i = 0; i < singular_values.size(); ++i)
@@ -129,7 +129,7 @@ inline Eigen::MatrixXd newton_ls_care(const Eigen::Ref<const Eigen::MatrixXd> A,
        /** inner loop to accept step */
        X.noalias() += tk * H;
        //err = tk * (H.lpNorm<1>() / X.lpNorm<1>());
-       err = RX.norm() / (1.0 + C.norm());
+       err = tk * H.norm() / X.norm();
        k++;
     }
 
-- 
2.43.0


From ec36a31a9a8f26153436e1d63b17b488db75df95 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 00:21:13 +0000
Subject: [PATCH 35/41] fix: sparse ODE collocation failed on refill when the
 differentiation matrix has a zero on its diagonal

---
 src/control/sparse_ode_collocation.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/control/sparse_ode_collocation.hpp b/src/control/sparse_ode_collocation.hpp
index 9ac6c23..1a7e9cd 100644
--- a/src/control/sparse_ode_collocation.hpp
+++ b/src/control/sparse_ode_collocation.hpp
@@ -119,6 +119,8 @@ void sparse_ode_collocation<Dynamics, Polynomial, NumSegments>::compute_diff_mat
             DM.template block<NUM_NODES - 1, NUM_NODES>(k, k) = D.template topLeftCorner<NUM_NODES - 1, NUM_NODES>();
 
         Eigen::SparseMatrix<Scalar> SpDM = DM.sparseView();
+        for(int k = 0; k < SpDM.rows(); ++k)
+            SpDM.coeffRef(k, k) += Scalar(0); // the diagonal belongs to the Jacobian pattern even where D is zero
         m_DiffMat = Eigen::KroneckerProductSparse<Eigen::SparseMatrix<Scalar>, Eigen::SparseMatrix<Scalar>>(SpDM,E);
 
         m_DiffMat_Ext.resize(constr_t::RowsAtCompileTime, var_t::RowsAtCompileTime);
-- 
2.43.0


From 03568fb9759a2e477dea128d47bfddd1041e9aa7 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 00:22:41 +0000
Subject: [PATCH 36/41] fix: collocation functors ignored the functors given to
 their constructors and stayed uninitialised

---
 src/control/cost_collocation.hpp       | 7 ++++++-
 src/control/ode_collocation.hpp        | 6 +++++-
 src/control/sparse_ode_collocation.hpp | 7 ++++++-
 3 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/control/cost_collocation.hpp b/src/control/cost_collocation.hpp
index 207802d..8e78866 100644
--- a/src/control/cost_collocation.hpp
+++ b/src/control/cost_collocation.hpp
@@ -109,7 +109,12 @@ public:
 
 
     cost_collocation();
-    cost_collocation(const LagrangeTerm &L, const MayerTerm &M){}
+    cost_collocation(const LagrangeTerm &L, const MayerTerm &M) : m_Lagrange(L), m_Mayer(M)
+    {
+        m_weights = m_basis_f.CCQWeights();
+        initialize_derivatives();
+        initialize_second_derivatives();
+    }
     ~cost_collocation(){}
 
 private:
diff --git a/src/control/ode_collocation.hpp b/src/control/ode_collocation.hpp
index f6a2582..06a5eaa 100644
--- a/src/control/ode_collocation.hpp
+++ b/src/control/ode_collocation.hpp
@@ -44,7 +44,11 @@ public:
     /** composite differentiation matrix */
     using comp_diff_mat_t = Eigen::Matrix<Scalar, VARX_SIZE, VARX_SIZE>;
 
-    ode_collocation(const Dynamics &_f){}
+    ode_collocation(const Dynamics &_f) : m_f(_f)
+    {
+        compute_diff_matrix();
+        initialize_derivatives();
+    }
     ode_collocation();
     ~ode_collocation(){}
 
diff --git a/src/control/sparse_ode_collocation.hpp b/src/control/sparse_ode_collocation.hpp
index 1a7e9cd..61fcf2f 100644
--- a/src/control/sparse_ode_collocation.hpp
+++ b/src/control/sparse_ode_collocation.hpp
@@ -47,7 +47,12 @@ public:
     /** composite differentiation matrix */
     using comp_diff_mat_t = Eigen::SparseMatrix<Scalar>; //Eigen::Matrix<Scalar, VARX_SIZE, VARX_SIZE>;
 
-    sparse_ode_collocation(const Dynamics &_f){}
+    sparse_ode_collocation(const Dynamics &_f) : m_f(_f)
+    {
+        compute_diff_matrix();
+        compute_inner_nnz();
+        initialize_derivatives();
+    }
     sparse_ode_collocation();
     ~sparse_ode_collocation(){}
 
-- 
2.43.0


From 2261d92d17e8d3e258a800dea7fd58d9b910d7c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:50 +0000
Subject: [PATCH 37/41] fix: IpoptInterface::get_problem returned the adapter
 and did not compile

---
 src/solvers/ipopt_interface.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/solvers/ipopt_interface.hpp b/src/solvers/ipopt_interface.hpp
index b2b136c..b8f8aac 100644
--- a/src/solvers/ipopt_interface.hpp
+++ b/src/solvers/ipopt_interface.hpp
@@ -432,8 +432,8 @@ public:
     EIGEN_STRONG_INLINE const nlp_settings_t& settings() const noexcept { return *(m_app->Options()); }
     EIGEN_STRONG_INLINE nlp_settings_t& settings() noexcept { return *(m_app->Options()); }
 
-    EIGEN_STRONG_INLINE const Problem& get_problem() const noexcept { return *(m_problem); }
-    EIGEN_STRONG_INLINE Problem& get_problem() noexcept { return *(m_problem); }
+    EIGEN_STRONG_INLINE const Problem& get_problem() const noexcept { return m_problem->problem; }
+    EIGEN_STRONG_INLINE Problem& get_problem() noexcept { return m_problem->problem; }
 
     EIGEN_STRONG_INLINE const ipopt_info_t& info() const noexcept { return m_info; }
     EIGEN_STRONG_INLINE ipopt_info_t& info() noexcept { return m_info; }
-- 
2.43.0


From adeb6e28c6f2367a8f066b3325982aa8469bc002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:50 +0000
Subject: [PATCH 38/41] fix: IpoptAdapter never copied the values of a sparse
 constraint Jacobian to Ipopt

---
 src/solvers/ipopt_interface.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/solvers/ipopt_interface.hpp b/src/solvers/ipopt_interface.hpp
index b8f8aac..803e973 100644
--- a/src/solvers/ipopt_interface.hpp
+++ b/src/solvers/ipopt_interface.hpp
@@ -106,7 +106,12 @@ public:
                 }
         }
         else
-            data = mat.derived().valuePtr();
+        {
+            int ind = 0;
+            for (int k = 0; k < mat.outerSize(); ++k)
+                for (typename Eigen::SparseMatrix<scalar_t>::InnerIterator it(mat, k); it; ++it, ++ind)
+                    data[ind] = it.value();
+        }
     }
 
     template<typename MatrixType, int T = Problem::MATRIXFMT>
-- 
2.43.0


From 03dfb725bf38506b163b13b816090ff138a32f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:50 +0000
Subject: [PATCH 39/41] fix: IpoptAdapter read past Ipopt's constraint
 multipliers and dropped the bound multipliers

---
 src/solvers/ipopt_interface.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/solvers/ipopt_interface.hpp b/src/solvers/ipopt_interface.hpp
index 803e973..2f81935 100644
--- a/src/solvers/ipopt_interface.hpp
+++ b/src/solvers/ipopt_interface.hpp
@@ -364,8 +364,10 @@ public:
         {
             // // return the values. This is a symmetric matrix, fill the lower left
             // // triangle only
-            problem.lagrangian_gradient_hessian(Eigen::Map<const nlp_variable_t>(x), m_p,
-                                                Eigen::Map<const nlp_dual_t>(lambda), m_cost,
+            // Ipopt passes the multipliers of the general constraints only
+            nlp_dual_t lam = nlp_dual_t::Zero(num_constraints + num_variables);
+            lam.template head<num_constraints>() = Eigen::Map<const nlp_constraints_t>(lambda, num_constraints, 1);
+            problem.lagrangian_gradient_hessian(Eigen::Map<const nlp_variable_t>(x), m_p, lam, m_cost,
                                                 m_h, m_H, m_dlag, m_g, m_A, obj_factor);
 
             get_data(m_H, values, true);
@@ -380,7 +382,8 @@ public:
                            Ipopt::IpoptCalculatedQuantities* ip_cq) override
     {
         m_x   = Eigen::Map<const nlp_variable_t>(x);
-        m_lam = Eigen::Map<const nlp_dual_t>(lambda);
+        m_lam.template head<num_constraints>() = Eigen::Map<const nlp_constraints_t>(lambda, num_constraints, 1);
+        m_lam.template tail<num_variables>() = Eigen::Map<const nlp_variable_t>(z_U, num_variables, 1) - Eigen::Map<const nlp_variable_t>(z_L, num_variables, 1);
         m_cost = obj_value;
 
         /** @todo: Fill in the rest of the solution struct */
-- 
2.43.0


From cdef5ac0aa6350622710b4d34baadfcdb4a31640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:50 +0000
Subject: [PATCH 40/41] fix: OSQP adapter reported the dual residual as the
 primal one

---
 src/solvers/osqp_interface.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/solvers/osqp_interface.hpp b/src/solvers/osqp_interface.hpp
index 98504b0..528ff4a 100644
--- a/src/solvers/osqp_interface.hpp
+++ b/src/solvers/osqp_interface.hpp
@@ -84,7 +84,8 @@ public:
         this->m_y = osqp_solver.getDualSolution();
 
         this->m_info.iter = osqp_solver.workspace()->info->iter;
-        this->m_info.res_prim = osqp_solver.workspace()->info->dua_res;
+        this->m_info.res_prim = osqp_solver.workspace()->info->pri_res;
+        this->m_info.res_dual = osqp_solver.workspace()->info->dua_res;
         this->m_info.rho_updates = osqp_solver.workspace()->info->rho_updates;
         this->m_info.rho_estimate = osqp_solver.workspace()->info->rho_estimate;
 
@@ -146,7 +147,8 @@ public:
         this->m_y = osqp_solver.getDualSolution();
 
         this->m_info.iter = osqp_solver.workspace()->info->iter;
-        this->m_info.res_prim = osqp_solver.workspace()->info->dua_res;
+        this->m_info.res_prim = osqp_solver.workspace()->info->pri_res;
+        this->m_info.res_dual = osqp_solver.workspace()->info->dua_res;
         this->m_info.rho_updates = osqp_solver.workspace()->info->rho_updates;
         this->m_info.rho_estimate = osqp_solver.workspace()->info->rho_estimate;
 
-- 
2.43.0


From 625d558249b6fb655e1192ff2ac60784bf924146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:52 +0000
Subject: [PATCH 41/41] fix: QPMAD adapter left a stale status in info() after
 a failure

---
 src/solvers/qpmad_interface.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/solvers/qpmad_interface.hpp b/src/solvers/qpmad_interface.hpp
index 7b4a8ef..6024833 100644
--- a/src/solvers/qpmad_interface.hpp
+++ b/src/solvers/qpmad_interface.hpp
@@ -84,7 +84,7 @@ public:
         {
             case solver_t::ReturnStatus::OK : {this->m_info.status = status_t::SOLVED; return status_t::SOLVED;}
             case solver_t::ReturnStatus::MAXIMAL_NUMBER_OF_ITERATIONS : {this->m_info.status = status_t::MAX_ITER_EXCEEDED; return status_t::MAX_ITER_EXCEEDED;}
-            default: return status_t::UNSOLVED;
+            default: {this->m_info.status = status_t::UNSOLVED; return status_t::UNSOLVED;}
         }
     }
 
@@ -107,7 +107,7 @@ public:
         {
             case qpmad::Solver::OK : {this->m_info.status = status_t::SOLVED; return status_t::SOLVED;}
             case qpmad::Solver::MAXIMAL_NUMBER_OF_ITERATIONS : {this->m_info.status = status_t::MAX_ITER_EXCEEDED; return status_t::MAX_ITER_EXCEEDED;}
-            default: return status_t::UNSOLVED;
+            default: {this->m_info.status = status_t::UNSOLVED; return status_t::UNSOLVED;}
         }
     }
 
-- 
2.43.0

