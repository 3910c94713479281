From 7163efce12d1c319c7d2cfa99591483228b72e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:11 +0000
Subject: [PATCH 01/26] fix: boxADMM over-relaxation used the already
 overwritten iterate

The relaxed step x = alpha*x_tilde + (1-alpha)*x was evaluated in place, so the
second term used the new value of x, and the box-constraint splitting variable was
relaxed with it. For any alpha other than 1 the iteration had a wrong fixed
point and never converged. Keep the previous iterates and relax them, as for z.
---
 src/solvers/box_admm.hpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/solvers/box_admm.hpp b/src/solvers/box_admm.hpp
index c31106a..7a9541b 100644
--- a/src/solvers/box_admm.hpp
+++ b/src/solvers/box_admm.hpp
@@ -42,7 +42,7 @@ public:
     ~boxADMM() = default;
     /** ADMM specific */
     qp_var_t m_x_tilde;
-    qp_var_t m_q;
+    qp_var_t m_q, m_q_prev;
     qp_dual_a_t m_z, m_z_tilde, m_z_prev;
     qp_dual_a_t m_rho_vec, m_rho_inv_vec;
     qp_var_t  m_rho_vec_box, m_rho_vec_box_inv, m_rho_vec_box_prev;
@@ -117,6 +117,7 @@ public:
         for (iter = 1; iter <= this->m_settings.max_iter; iter++)
         {
             m_z_prev = m_z;
+            m_q_prev = m_q;
 
             /** update x_tilde z_tilde */
             compute_kkt_rhs(h, rhs);
@@ -126,8 +127,7 @@ public:
             m_z_tilde = m_z_prev + m_rho_inv_vec.cwiseProduct(x_tilde_nu.template tail<M>() - this->m_y.template head<M>());
 
             /** update x */
-            this->m_x.noalias() = this->m_settings.alpha * m_x_tilde;
-            this->m_x.noalias() += (1 - this->m_settings.alpha) * this->m_x;
+            this->m_x = this->m_settings.alpha * m_x_tilde + (1 - this->m_settings.alpha) * this->m_x;
 
             /** update z */
             m_z.noalias() = this->m_settings.alpha * m_z_tilde;
@@ -135,7 +135,8 @@ public:
             m_z = m_z.cwiseMax(Alb).cwiseMin(Aub); //box projection
 
             /** update q */
-            m_q.noalias() = this->m_x + m_rho_vec_box_inv.cwiseProduct(this->m_y.template tail<N>());
+            m_q.noalias() = this->m_settings.alpha * m_x_tilde;
+            m_q.noalias() += (1 - this->m_settings.alpha) * m_q_prev + m_rho_vec_box_inv.cwiseProduct(this->m_y.template tail<N>());
             m_q = m_q.cwiseMax(xlb).cwiseMin(xub); // box projection
 
             /** update y (dual) */
@@ -143,8 +144,8 @@ public:
                                                                              (1 - this->m_settings.alpha) * m_z_prev - m_z);
 
             /** update y_box (dual) */
-            //m_y_box.noalias() += m_rho_vec_box.cwiseProduct(this->m_settings.alpha * m_x_tilde + (1 - this->m_settings.alpha) * m_q_prev - m_q);
-            this->m_y.template tail<N>().noalias() += m_rho_vec_box.cwiseProduct(this->m_x - m_q);
+            this->m_y.template tail<N>().noalias() += m_rho_vec_box.cwiseProduct(this->m_settings.alpha * m_x_tilde +
+                                                                                 (1 - this->m_settings.alpha) * m_q_prev - m_q);
 
             if (this->m_settings.check_termination != 0 && iter % this->m_settings.check_termination == 0)
                 check_termination = true;
-- 
2.43.0


From 69343699e737039da8c12a7f0ca67e8e53465637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:59 +0000
Subject: [PATCH 02/26] fix: ADMM and boxADMM reported SOLVED for NaN iterates

lpNorm<Infinity> skips NaN entries, so a NaN in some components of the iterate or of
the problem data left small residuals behind and passed the termination test (seen
with sparse problems whose variables decouple). Propagate NaN through the residual
norms and require finite iterates and residuals for convergence.
---
 src/solvers/admm.hpp     |  2 +-
 src/solvers/box_admm.hpp |  2 +-
 src/solvers/qp_base.hpp  | 19 +++++++++++++++++--
 3 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/solvers/admm.hpp b/src/solvers/admm.hpp
index a849d6f..e5ed753 100644
--- a/src/solvers/admm.hpp
+++ b/src/solvers/admm.hpp
@@ -479,7 +479,7 @@ public:
     EIGEN_STRONG_INLINE bool termination_criteria() const noexcept
     {
         // check residual norms to detect optimality
-        return (this->m_info.res_prim <= eps_prim() && this->m_info.res_dual <= eps_dual()) ? true : false;
+        return (this->m_info.res_prim <= eps_prim() && this->m_info.res_dual <= eps_dual() && this->all_finite()) ? true : false;
     }
 
     EIGEN_STRONG_INLINE scalar_t estimate_rho(const scalar_t& rho0) const noexcept
diff --git a/src/solvers/box_admm.hpp b/src/solvers/box_admm.hpp
index 7a9541b..aa00a00 100644
--- a/src/solvers/box_admm.hpp
+++ b/src/solvers/box_admm.hpp
@@ -428,7 +428,7 @@ public:
     EIGEN_STRONG_INLINE bool termination_criteria() const noexcept
     {
         // check residual norms to detect optimality
-        return (this->m_info.res_prim <= eps_prim() && this->m_info.res_dual <= eps_dual()) ? true : false;
+        return (this->m_info.res_prim <= eps_prim() && this->m_info.res_dual <= eps_dual() && this->all_finite()) ? true : false;
     }
 
     EIGEN_STRONG_INLINE scalar_t estimate_rho(const scalar_t& rho0) const noexcept
diff --git a/src/solvers/qp_base.hpp b/src/solvers/qp_base.hpp
index 70b6a0b..e11963f 100644
--- a/src/solvers/qp_base.hpp
+++ b/src/solvers/qp_base.hpp
@@ -240,7 +240,8 @@ class QPBase
     EIGEN_STRONG_INLINE scalar_t primal_residual_impl(const Eigen::Ref<const qp_constraint_t>& A, const Eigen::Ref<const qp_var_t>& x,
                                                  const Eigen::Ref<const qp_dual_a_t>& b) const noexcept
     {
-        return (A * x - b).template lpNorm<Eigen::Infinity>();
+        const qp_dual_a_t residual = A * x - b;
+        return inf_norm(residual);
     }
 
     /** dual residual estimation */
@@ -248,7 +249,21 @@ class QPBase
                                                const Eigen::Ref<const qp_constraint_t>& A, const Eigen::Ref<const qp_var_t>& x,
                                                const Eigen::Ref<const qp_dual_t>& y) const noexcept
     {
-        return (H * x + h + A.transpose() * y.template head<M>() + y.template tail<N>()).template lpNorm<Eigen::Infinity>();
+        const qp_var_t residual = H * x + h + A.transpose() * y.template head<M>() + y.template tail<N>();
+        return inf_norm(residual);
+    }
+
+    /** infinity norm: lpNorm<Infinity>() skips NaN entries and therefore must not be used to detect convergence */
+    template<typename Vec>
+    static EIGEN_STRONG_INLINE scalar_t inf_norm(const Eigen::MatrixBase<Vec>& v) noexcept
+    {
+        return v.hasNaN() ? std::numeric_limits<scalar_t>::quiet_NaN() : v.template lpNorm<Eigen::Infinity>();
+    }
+
+    /** check that the iterates and the residuals contain no NaN or Inf: otherwise the problem cannot be considered solved */
+    EIGEN_STRONG_INLINE bool all_finite() const noexcept
+    {
+        return m_x.allFinite() && m_y.allFinite() && (Eigen::numext::isfinite)(m_info.res_prim) && (Eigen::numext::isfinite)(m_info.res_dual);
     }
 
 };
-- 
2.43.0


From 34274f8b67f050e6fb4337f96e4f4c9e6f8e3e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:29 +0000
Subject: [PATCH 03/26] fix: reuse_pattern corrupted the KKT matrix of the
 sparse QP solvers

The in-place update copied the columns of H and A back to back, although the KKT
matrix also stores diagonal entries that H may not have: with a missing diagonal
entry all following values of the column landed one place too early. With
Lower|Upper the transposed block was in addition inserted a second time, at the
place of the lower block. Match rows when copying and update the upper block in place.
---
 src/solvers/admm.hpp     | 32 ++++++++++++++++++++++++++------
 src/solvers/box_admm.hpp | 32 ++++++++++++++++++++++++++------
 2 files changed, 52 insertions(+), 12 deletions(-)

diff --git a/src/solvers/admm.hpp b/src/solvers/admm.hpp
index e5ed753..14c1456 100644
--- a/src/solvers/admm.hpp
+++ b/src/solvers/admm.hpp
@@ -325,12 +325,16 @@ public:
         // copy H and A blocks
         for(Eigen::Index k = 0; k < N; ++k)
         {
-            std::copy_n(H.valuePtr() + H.outerIndexPtr()[k], H.innerNonZeroPtr()[k], m_K.valuePtr() + m_K.outerIndexPtr()[k]);
-            std::copy_n(A.valuePtr() + A.outerIndexPtr()[k], A.innerNonZeroPtr()[k], m_K.valuePtr() + m_K.outerIndexPtr()[k] + H.innerNonZeroPtr()[k]);
+            // m_K always stores the diagonal, H might not: clear the entries that are present in m_K only
+            Eigen::Index pos = m_K.outerIndexPtr()[k];
+            const Eigen::Index end = pos + m_K.innerNonZeroPtr()[k];
+            pos = copy_column_values(H, k, 0, pos, end);
+            pos = copy_column_values(A, k, N, pos, end);
+            std::fill(m_K.valuePtr() + pos, m_K.valuePtr() + end, scalar_t(0));
         }
-        // reserve the space and insert values from H and A
+        // set the upper triangular part
         if(LinearSolver_UpLo == (Eigen::Upper|Eigen::Lower))
-            block_set_sparse(m_K, N, 0, A.transpose());
+            block_set_sparse(m_K, 0, N, A.transpose());
 
 
         // add diagonal blocks*/
@@ -338,6 +342,22 @@ public:
         m_K.diagonal(). template tail<M + N>() = -m_rho_inv_vec;
     }
 
+    /** overwrite the values of the k-th column of m_K, stored at [pos, end), with the k-th column of src; returns the next position */
+    template<typename SparseMat>
+    EIGEN_STRONG_INLINE Eigen::Index copy_column_values(const SparseMat& src, const Eigen::Index& k, const Eigen::Index& row_offset,
+                                                        Eigen::Index pos, const Eigen::Index& end) noexcept
+    {
+        for(typename SparseMat::InnerIterator it(src, k); it; ++it)
+        {
+            while(pos < end && m_K.innerIndexPtr()[pos] < row_offset + it.row())
+                m_K.valuePtr()[pos++] = scalar_t(0);
+
+            eigen_assert(pos < end && m_K.innerIndexPtr()[pos] == row_offset + it.row());
+            m_K.valuePtr()[pos++] = it.value();
+        }
+        return pos;
+    }
+
     template<int T = MatrixType>
     EIGEN_STRONG_INLINE typename std::enable_if<T == SPARSE>::type
     block_insert_sparse(Eigen::SparseMatrix<scalar_t>& dst, const Eigen::Index &row_offset,
@@ -354,10 +374,10 @@ public:
     block_set_sparse(Eigen::SparseMatrix<scalar_t>& dst, const Eigen::Index &row_offset,
                      const Eigen::Index &col_offset, const Eigen::SparseMatrix<scalar_t>& src) const noexcept
     {
-        // assumes enough spase is allocated in the dst matrix
+        // assumes the entries are already present in the dst matrix
         for(Eigen::Index k = 0; k < src.outerSize(); ++k)
             for (typename Eigen::SparseMatrix<scalar_t>::InnerIterator it(src, k); it; ++it)
-                dst.insert(row_offset + it.row(), col_offset + it.col()) = it.value();
+                dst.coeffRef(row_offset + it.row(), col_offset + it.col()) = it.value();
     }
 
     /** workaround function to estimate number of nonzeros */
diff --git a/src/solvers/box_admm.hpp b/src/solvers/box_admm.hpp
index aa00a00..84bf9af 100644
--- a/src/solvers/box_admm.hpp
+++ b/src/solvers/box_admm.hpp
@@ -296,12 +296,16 @@ public:
         // copy H and A blocks
         for(Eigen::Index k = 0; k < N; ++k)
         {
-            std::copy_n(H.valuePtr() + H.outerIndexPtr()[k], H.innerNonZeroPtr()[k], m_K.valuePtr() + m_K.outerIndexPtr()[k]);
-            std::copy_n(A.valuePtr() + A.outerIndexPtr()[k], A.innerNonZeroPtr()[k], m_K.valuePtr() + m_K.outerIndexPtr()[k] + H.innerNonZeroPtr()[k]);
+            // m_K always stores the diagonal, H might not: clear the entries that are present in m_K only
+            Eigen::Index pos = m_K.outerIndexPtr()[k];
+            const Eigen::Index end = pos + m_K.innerNonZeroPtr()[k];
+            pos = copy_column_values(H, k, 0, pos, end);
+            pos = copy_column_values(A, k, N, pos, end);
+            std::fill(m_K.valuePtr() + pos, m_K.valuePtr() + end, scalar_t(0));
         }
-        // reserve the space and insert values from H and A
+        // set the upper triangular part
         if(LinearSolver_UpLo == (Eigen::Upper|Eigen::Lower))
-            block_set_sparse(m_K, N, 0, A.transpose());
+            block_set_sparse(m_K, 0, N, A.transpose());
 
 
         // add diagonal blocks*/
@@ -310,6 +314,22 @@ public:
         m_K.diagonal(). template tail<M>() = -m_rho_inv_vec;
    }
 
+    /** overwrite the values of the k-th column of m_K, stored at [pos, end), with the k-th column of src; returns the next position */
+    template<typename SparseMat>
+    EIGEN_STRONG_INLINE Eigen::Index copy_column_values(const SparseMat& src, const Eigen::Index& k, const Eigen::Index& row_offset,
+                                                        Eigen::Index pos, const Eigen::Index& end) noexcept
+    {
+        for(typename SparseMat::InnerIterator it(src, k); it; ++it)
+        {
+            while(pos < end && m_K.innerIndexPtr()[pos] < row_offset + it.row())
+                m_K.valuePtr()[pos++] = scalar_t(0);
+
+            eigen_assert(pos < end && m_K.innerIndexPtr()[pos] == row_offset + it.row());
+            m_K.valuePtr()[pos++] = it.value();
+        }
+        return pos;
+    }
+
     template<int T = MatrixType>
     EIGEN_STRONG_INLINE typename std::enable_if<T == SPARSE>::type
     block_insert_sparse(Eigen::SparseMatrix<scalar_t>& dst, const Eigen::Index &row_offset,
@@ -326,10 +346,10 @@ public:
     block_set_sparse(Eigen::SparseMatrix<scalar_t>& dst, const Eigen::Index &row_offset,
                         const Eigen::Index &col_offset, const Eigen::SparseMatrix<scalar_t>& src) const noexcept
     {
-        // assumes enough spase is allocated in the dst matrix
+        // assumes the entries are already present in the dst matrix
         for(Eigen::Index k = 0; k < src.outerSize(); ++k)
             for (typename Eigen::SparseMatrix<scalar_t>::InnerIterator it(src, k); it; ++it)
-                dst.insert(row_offset + it.row(), col_offset + it.col()) = it.value();
+                dst.coeffRef(row_offset + it.row(), col_offset + it.col()) = it.value();
     }
 
 
-- 
2.43.0


From 3b400dcc5f626261f49bf8e5873d9380c0688959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:44 +0000
Subject: [PATCH 04/26] fix: SQP reported SOLVED after callbacks returned NaN

---
 src/solvers/sqp_base.hpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/solvers/sqp_base.hpp b/src/solvers/sqp_base.hpp
index d1b5ff9..481cc9d 100644
--- a/src/solvers/sqp_base.hpp
+++ b/src/solvers/sqp_base.hpp
@@ -150,6 +150,7 @@ public:
   scalar_t m_primal_norm;
   scalar_t m_dual_norm;
   scalar_t m_max_violation{0};
+  bool     m_merit_undefined{false}; // the last line search failed because the merit function was not a finite number
 
 
   static constexpr scalar_t EPSILON = std::numeric_limits<scalar_t>::epsilon();
@@ -379,6 +380,7 @@ template<typename Derived, typename Problem, typename QPSolver, typename Precond
 typename SQPBase<Derived, Problem, QPSolver, Preconditioner>::scalar_t
 SQPBase<Derived, Problem, QPSolver, Preconditioner>::step_size_selection_impl(const Eigen::Ref<const nlp_variable_t>& p) noexcept
 {
+    m_merit_undefined = false;
     scalar_t mu, phi_l1, Dp_phi_l1;
     nlp_variable_t cost_gradient = this->m_h;
     const scalar_t tau = this->m_settings.tau; // line search step decrease, 0 < tau < settings.tau
@@ -399,6 +401,7 @@ SQPBase<Derived, Problem, QPSolver, Preconditioner>::step_size_selection_impl(co
 
     scalar_t alpha = scalar_t(1.0);
     scalar_t cost_step;
+    scalar_t phi_l1_step = phi_l1;
     nlp_variable_t x_step;
     for (int i = 1; i < this->m_settings.line_search_max_iter; i++)
     {
@@ -407,7 +410,7 @@ SQPBase<Derived, Problem, QPSolver, Preconditioner>::step_size_selection_impl(co
         this->problem.cost(x_step, this->m_p, cost_step);
         m_cost = cost_step; //log cost
 
-        scalar_t phi_l1_step = cost_step + mu * this->constraints_violation(x_step);
+        phi_l1_step = cost_step + mu * this->constraints_violation(x_step);
 
         if (phi_l1_step <= (phi_l1 + alpha * this->m_settings.eta * Dp_phi_l1))
             return alpha;
@@ -415,6 +418,7 @@ SQPBase<Derived, Problem, QPSolver, Preconditioner>::step_size_selection_impl(co
             alpha = tau * alpha;
     }
 
+    m_merit_undefined = !(Eigen::numext::isfinite)(phi_l1 + Dp_phi_l1) || !(Eigen::numext::isfinite)(phi_l1_step);
     return alpha;
 }
 
@@ -454,6 +458,7 @@ SQPBase<Derived, Problem, QPSolver, Preconditioner>::max_constraints_violation_i
     {
         nlp_eq_constraints_t c_eq;
         problem.equalities(x, m_p, c_eq);
+        if (c_eq.hasNaN()) return std::numeric_limits<scalar_t>::quiet_NaN(); // the norms below skip NaN entries
         c = c_eq.template lpNorm<Eigen::Infinity>();
     }
 
@@ -462,6 +467,7 @@ SQPBase<Derived, Problem, QPSolver, Preconditioner>::max_constraints_violation_i
     {
         nlp_ineq_constraints_t g;
         problem.inequalities(x, m_p, g);
+        if (g.hasNaN()) return std::numeric_limits<scalar_t>::quiet_NaN();
         c = fmax( c, (m_lbg - g).maxCoeff() );
         c = fmax( c, (g - m_ubg).maxCoeff() );
     }
@@ -524,6 +530,11 @@ template<typename Derived, typename Problem, typename QPSolver, typename Precond
 bool SQPBase<Derived, Problem, QPSolver, Preconditioner>::termination_criteria_impl(const Eigen::Ref<const nlp_variable_t>& x) noexcept
 {
     m_max_violation = max_constraints_violation(x);
+
+    // a step that was shortened because the problem could not be evaluated does not indicate convergence
+    if (m_merit_undefined || !x.allFinite() || !m_lam.allFinite())
+        return false;
+
     return (m_primal_norm <= m_settings.eps_prim) && (m_dual_norm <= m_settings.eps_dual) &&
             (m_max_violation <= m_settings.eps_prim) ? true : false;
 }
-- 
2.43.0


From 9f12e4e73e89846b01f4813c477d342cb0926595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:03 +0000
Subject: [PATCH 05/26] fix: problems without a cost callback optimised an
 uninitialised cost

---
 src/solvers/nlproblem.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solvers/nlproblem.hpp b/src/solvers/nlproblem.hpp
index ce877e7..85ccf25 100644
--- a/src/solvers/nlproblem.hpp
+++ b/src/solvers/nlproblem.hpp
@@ -174,7 +174,7 @@ public:
     // default empty implementation
     template<typename T>
     EIGEN_STRONG_INLINE void cost_impl(const Eigen::Ref<const variable_t<T>>& x,
-                                       const Eigen::Ref<const static_parameter_t>& p, T& cost) const noexcept {}
+                                       const Eigen::Ref<const static_parameter_t>& p, T& cost) const noexcept { cost = T(0); }
 
     /** @brief
      *
-- 
2.43.0


From 84577078cab9ab599c93ea97fc26f9c61c2c4ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:26 +0000
Subject: [PATCH 06/26] fix: SR1_update divided by zero when the model already
 matches the gradient change

---
 src/solvers/sr1.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solvers/sr1.hpp b/src/solvers/sr1.hpp
index 3dd289b..c18192d 100644
--- a/src/solvers/sr1.hpp
+++ b/src/solvers/sr1.hpp
@@ -29,7 +29,7 @@ void SR1_update(Eigen::MatrixBase<Mat>& B, const Eigen::MatrixBase<Vec>& s, cons
     const Scalar scaling = v.dot(s);
     const Scalar eps = Scalar(1e-6); // as suggested by Nocedal
     // safeguard
-    if(std::abs(scaling) >= eps * s.template lpNorm<2>() * v.template lpNorm<2>())
+    if(std::abs(scaling) > eps * s.template lpNorm<2>() * v.template lpNorm<2>())
         B.noalias() += v * v.transpose() / scaling;
 
     //else: leave matrix unchanged B_{k+1} = B_{k}
-- 
2.43.0


From 8324c2fd78fdcd17660f8169cc6613d58fb5d856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:25 +0000
Subject: [PATCH 07/26] fix: sparse Ruiz equilibration divided by zero for
 empty Hessian columns with a zero gradient

---
 src/solvers/qp_preconditioners.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/solvers/qp_preconditioners.hpp b/src/solvers/qp_preconditioners.hpp
index 8cd4eef..3bad0a2 100644
--- a/src/solvers/qp_preconditioners.hpp
+++ b/src/solvers/qp_preconditioners.hpp
@@ -285,8 +285,10 @@ public:
             h = h.cwiseProduct(m_D);
 
             // update gamma factor
-            for(int i = 0; i < N; ++i) m_D(i) = maxxCoeff(H.col(i).cwiseAbs());
-            gamma_scaling = scalar_t(1) / std::max(m_D.mean(), h.template lpNorm<Eigen::Infinity>());
+            for(int i = 0; i < N; ++i) m_D(i) = std::max(scalar_t(0), maxxCoeff(H.col(i).cwiseAbs())); // a column can be empty
+            scalar_t h_inf = h.template lpNorm<Eigen::Infinity>();
+            h_inf = h_inf > _approx_zero ? h_inf : scalar_t(1.0);
+            gamma_scaling = scalar_t(1) / std::max(m_D.mean(), h_inf);
             H *= gamma_scaling;
             h *= gamma_scaling;
             m_c *= gamma_scaling;
-- 
2.43.0


From b546013df1235c9bd855b6327af1cb345f635b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:42 +0000
Subject: [PATCH 08/26] fix: sparse inequality Jacobian update used NX instead
 of NG rows

---
 src/control/continuous_ocp.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/control/continuous_ocp.hpp b/src/control/continuous_ocp.hpp
index 3e33c58..e8ec173 100644
--- a/src/control/continuous_ocp.hpp
+++ b/src/control/continuous_ocp.hpp
@@ -1099,7 +1099,7 @@ ContinuousOCP<OCP, Approximation, MatrixFormat>::_inequalities_linearised_sparse
 {
     eigen_assert(jacobian.outerSize() == VAR_SIZE);
     /** compute jacoabian of dynamics */
-    Eigen::Matrix<scalar_t, NX, NX + NU + NP> jac;
+    Eigen::Matrix<scalar_t, NG, NX + NU + NP> jac;
 
     /** initialize AD veriables */
     m_ad_p = var.template segment<NP>(VARX_SIZE + VARU_SIZE);
-- 
2.43.0


From 0d9303918cc8cccdc7f5a8a3d8ddd539324379c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:28 +0000
Subject: [PATCH 09/26] fix: wrong parameter and terminal-cost blocks in the
 OCP cost Hessian (dense corner, first sparse build, control dimension)

---
 src/control/continuous_ocp.hpp | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/src/control/continuous_ocp.hpp b/src/control/continuous_ocp.hpp
index e8ec173..d20a215 100644
--- a/src/control/continuous_ocp.hpp
+++ b/src/control/continuous_ocp.hpp
@@ -1332,7 +1332,7 @@ ContinuousOCP<OCP, Approximation, MatrixFormat>::cost_gradient_hessian(const Eig
     for(int i = 0; i < NX; i++)
         m_ad2_x(i).value().value() = var.template head<NX>()(i);
     for(int i = 0; i < NU; i++)
-        m_ad2_u(i).value().value() = var.template segment<NX>(VARX_SIZE)(i);
+        m_ad2_u(i).value().value() = var.template segment<NU>(VARX_SIZE)(i);
 
     mayer_term<ad2_scalar_t>(m_ad2_x, m_ad2_u, m_ad2_p, p, time_nodes(0), mayer_cost);
     cost += mayer_cost.value().value();
@@ -1351,7 +1351,7 @@ ContinuousOCP<OCP, Approximation, MatrixFormat>::cost_gradient_hessian(const Eig
     /** diagonal  */
     cost_hessian.template topLeftCorner<NX, NX>() += hes.template topLeftCorner<NX, NX>();
     cost_hessian.template block<NU, NU>(VARX_SIZE, VARX_SIZE) += hes.template block<NU, NU>(NX, NX);
-    cost_hessian.template bottomLeftCorner<NP, NP>() += hes.template bottomLeftCorner<NP, NP>();
+    cost_hessian.template bottomRightCorner<NP, NP>() += hes.template bottomRightCorner<NP, NP>();
 
     /** dxdu */
     cost_hessian.template block<NX, NU>(0, VARX_SIZE) += hes.template block<NX, NU>(0, NX);
@@ -1478,14 +1478,11 @@ void ContinuousOCP<OCP, Approximation, MatrixFormat>::_cost_grad_hess_sparse(con
                                    hes.col(j).data() + NX, cost_hessian.valuePtr() + cost_hessian.outerIndexPtr()[(k + shift) * NX + j] + NX,
                                    std::plus<scalar_t>());
                 }
-                /** dudp */
+                /** dudp: the parameter columns are only partially filled here, entries cannot be addressed by offset */
                 for(Eigen::Index j = 0; j < NP; ++j)
                 {
-                    std::transform(cost_hessian.valuePtr() + cost_hessian.outerIndexPtr()[VARX_SIZE + VARU_SIZE + j] + VARX_SIZE + (k + shift) * NU,
-                                   cost_hessian.valuePtr() + cost_hessian.outerIndexPtr()[VARX_SIZE + VARU_SIZE + j] + VARX_SIZE + (k + shift) * NU + NU,
-                                   hes.col(j + NX + NU).data() + NX,
-                                   cost_hessian.valuePtr() + cost_hessian.outerIndexPtr()[VARX_SIZE + VARU_SIZE + j] + VARX_SIZE + (k + shift) * NU,
-                                   std::plus<scalar_t>());
+                    for(Eigen::Index r = 0; r < NU; ++r)
+                        cost_hessian.coeffRef((k + shift) * NU + VARX_SIZE + r, VARX_SIZE + VARU_SIZE + j) += hes(r + NX, j + NX + NU);
                 }
                 /** dp^2 */
                 /**
@@ -1537,7 +1534,7 @@ void ContinuousOCP<OCP, Approximation, MatrixFormat>::_cost_grad_hess_sparse(con
                 for(Eigen::Index j = 0; j < NP; ++j)
                 {
                     for(Eigen::Index r = 0; r < NX; ++r)
-                        cost_hessian.insert((k + shift) * NX + r, VARX_SIZE + VARU_SIZE + j) = hes(r, j + NX + NP);
+                        cost_hessian.insert((k + shift) * NX + r, VARX_SIZE + VARU_SIZE + j) = hes(r, j + NX + NU);
                 }
 
                 /** du^2 */
@@ -1572,7 +1569,7 @@ void ContinuousOCP<OCP, Approximation, MatrixFormat>::_cost_grad_hess_sparse(con
                 for(Eigen::Index j = 0; j < NU; ++j)
                 {
                     for(Eigen::Index r = 0; r < NP; ++r)
-                        cost_hessian.insert(VARX_SIZE + VARU_SIZE + r, (k + shift) * NU + VARX_SIZE + j) = hes(r + NX + NU, j + NU);
+                        cost_hessian.insert(VARX_SIZE + VARU_SIZE + r, (k + shift) * NU + VARX_SIZE + j) = hes(r + NX + NU, j + NX);
                 }
 
             }
@@ -1592,7 +1589,7 @@ void ContinuousOCP<OCP, Approximation, MatrixFormat>::_cost_grad_hess_sparse(con
     for(int i = 0; i < NX; i++)
         m_ad2_x(i).value().value() = var.template head<NX>()(i);
     for(int i = 0; i < NU; i++)
-        m_ad2_u(i).value().value() = var.template segment<NX>(VARX_SIZE)(i);
+        m_ad2_u(i).value().value() = var.template segment<NU>(VARX_SIZE)(i);
 
     mayer_term<ad2_scalar_t>(m_ad2_x, m_ad2_u, m_ad2_p, p, time_nodes(0), mayer_cost);
     cost += mayer_cost.value().value();
@@ -1849,7 +1846,7 @@ void ContinuousOCP<OCP, Approximation, MatrixFormat>::_cost_grad_hess_sparse_upd
     for(int i = 0; i < NX; i++)
         m_ad2_x(i).value().value() = var.template head<NX>()(i);
     for(int i = 0; i < NU; i++)
-        m_ad2_u(i).value().value() = var.template segment<NX>(VARX_SIZE)(i);
+        m_ad2_u(i).value().value() = var.template segment<NU>(VARX_SIZE)(i);
 
     mayer_term<ad2_scalar_t>(m_ad2_x, m_ad2_u, m_ad2_p, p, time_nodes(0), mayer_cost);
     cost += mayer_cost.value().value();
-- 
2.43.0


From 69a414767f6d852a3b4a057950e614308e46361a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:03 +0000
Subject: [PATCH 10/26] fix: sparse constraint Jacobian copied through a null
 pointer after the problem object was copied

---
 src/control/continuous_ocp.hpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/control/continuous_ocp.hpp b/src/control/continuous_ocp.hpp
index d20a215..399ea11 100644
--- a/src/control/continuous_ocp.hpp
+++ b/src/control/continuous_ocp.hpp
@@ -1167,12 +1167,12 @@ ContinuousOCP<OCP, Approximation, MatrixFormat>::constraints_linearised(const Ei
         // copy Je and Ji blocks to jac_g
         if(NUM_EQ > 0)
             for(Eigen::Index k = 0; k < VAR_SIZE; ++k)
-                std::copy_n(m_Je.valuePtr() + m_Je.outerIndexPtr()[k], m_Je.innerNonZeroPtr()[k], jacobian.valuePtr() + jacobian.outerIndexPtr()[k]);
+                std::copy_n(m_Je.valuePtr() + m_Je.outerIndexPtr()[k], m_jac_inner_nnz[k], jacobian.valuePtr() + jacobian.outerIndexPtr()[k]);
 
         if(NUM_INEQ > 0)
             for(Eigen::Index k = 0; k < VAR_SIZE; ++k)
-                std::copy_n(m_Ji.valuePtr() + m_Ji.outerIndexPtr()[k], m_Ji.innerNonZeroPtr()[k],
-                            jacobian.valuePtr() + jacobian.outerIndexPtr()[k] + m_Je.innerNonZeroPtr()[k]);
+                std::copy_n(m_Ji.valuePtr() + m_Ji.outerIndexPtr()[k], m_ineq_jac_inner_nnz[k],
+                            jacobian.valuePtr() + jacobian.outerIndexPtr()[k] + m_jac_inner_nnz[k]);
     }
 }
 
@@ -1998,12 +1998,12 @@ ContinuousOCP<OCP, Approximation, MatrixFormat>::lagrangian_gradient(const Eigen
         // copy Je and Ji blocks to jac_g
         if(NUM_EQ > 0)
             for(Eigen::Index k = 0; k < VAR_SIZE; ++k)
-                std::copy_n(m_Je.valuePtr() + m_Je.outerIndexPtr()[k], m_Je.innerNonZeroPtr()[k], jac_g.valuePtr() + jac_g.outerIndexPtr()[k]);
+                std::copy_n(m_Je.valuePtr() + m_Je.outerIndexPtr()[k], m_jac_inner_nnz[k], jac_g.valuePtr() + jac_g.outerIndexPtr()[k]);
 
         if(NUM_INEQ > 0)
             for(Eigen::Index k = 0; k < VAR_SIZE; ++k)
-                std::copy_n(m_Ji.valuePtr() + m_Ji.outerIndexPtr()[k], m_Ji.innerNonZeroPtr()[k],
-                            jac_g.valuePtr() + jac_g.outerIndexPtr()[k] + m_Je.innerNonZeroPtr()[k]);
+                std::copy_n(m_Ji.valuePtr() + m_Ji.outerIndexPtr()[k], m_ineq_jac_inner_nnz[k],
+                            jac_g.valuePtr() + jac_g.outerIndexPtr()[k] + m_jac_inner_nnz[k]);
     }
 
     //_lagrangian += g.dot(lam.template head<NUM_EQ>());
@@ -2197,12 +2197,12 @@ ContinuousOCP<OCP, Approximation, MatrixFormat>::lagrangian_gradient_hessian(con
         // copy Je and Ji blocks to jac_g
         if(NUM_EQ > 0)
             for(Eigen::Index k = 0; k < VAR_SIZE; ++k)
-                std::copy_n(m_Je.valuePtr() + m_Je.outerIndexPtr()[k], m_Je.innerNonZeroPtr()[k], jac_g.valuePtr() + jac_g.outerIndexPtr()[k]);
+                std::copy_n(m_Je.valuePtr() + m_Je.outerIndexPtr()[k], m_jac_inner_nnz[k], jac_g.valuePtr() + jac_g.outerIndexPtr()[k]);
 
         if(NUM_INEQ > 0)
             for(Eigen::Index k = 0; k < VAR_SIZE; ++k)
-                std::copy_n(m_Ji.valuePtr() + m_Ji.outerIndexPtr()[k], m_Ji.innerNonZeroPtr()[k],
-                            jac_g.valuePtr() + jac_g.outerIndexPtr()[k] + m_Je.innerNonZeroPtr()[k]);
+                std::copy_n(m_Ji.valuePtr() + m_Ji.outerIndexPtr()[k], m_ineq_jac_inner_nnz[k],
+                            jac_g.valuePtr() + jac_g.outerIndexPtr()[k] + m_jac_inner_nnz[k]);
     }
 
 
-- 
2.43.0


From 5740b3158359312680fb793e406a0d4baf31c396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:42 +0000
Subject: [PATCH 11/26] fix: problems without a Lagrange or Mayer term reused
 stale cost derivatives

---
 src/control/continuous_ocp.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/control/continuous_ocp.hpp b/src/control/continuous_ocp.hpp
index 399ea11..c6ff03f 100644
--- a/src/control/continuous_ocp.hpp
+++ b/src/control/continuous_ocp.hpp
@@ -253,7 +253,7 @@ public:
         polympc::ignore_unused_var(p);
         polympc::ignore_unused_var(d);
         polympc::ignore_unused_var(t);
-        polympc::ignore_unused_var(mayer);
+        mayer = T(0);
     }
 
     /** @brief
@@ -284,7 +284,7 @@ public:
         polympc::ignore_unused_var(p);
         polympc::ignore_unused_var(d);
         polympc::ignore_unused_var(t);
-        polympc::ignore_unused_var(lagrange);
+        lagrange = T(0);
     }
 
     /** seed edrivatives */
-- 
2.43.0


From 1ab904439dfddabceee4f7be046ce4e42bef9c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:15 +0000
Subject: [PATCH 12/26] fix: sparse quasi-Newton update divided by zero for a
 zero step

---
 src/control/continuous_ocp.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/control/continuous_ocp.hpp b/src/control/continuous_ocp.hpp
index c6ff03f..657d36b 100644
--- a/src/control/continuous_ocp.hpp
+++ b/src/control/continuous_ocp.hpp
@@ -2314,6 +2314,11 @@ ContinuousOCP<OCP, Approximation, MatrixFormat>::hessian_update_impl(Eigen::Ref<
     const scalar_t sy_inv = scalar_t(1) / sy;
     nlp_variable_t r;
 
+    // same safeguard as in the dense update: skip steps without curvature information
+    const scalar_t sr = (sy >= 0.2 * scaling) ? sy : static_cast<scalar_t>(0.2 * scaling);
+    if(sr < std::numeric_limits<scalar_t>::epsilon())
+        return;
+
     // create temporaries to store
     Eigen::Matrix<scalar_t, NX, NX> hes_xx;
     Eigen::Matrix<scalar_t, NU, NU> hes_uu;
-- 
2.43.0


From 21487664f644fc37f4b61e32a0d436a9af672a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:17 +0000
Subject: [PATCH 13/26] fix: sparse Jacobian updates assumed neighbouring
 columns to be adjacent in memory

---
 src/control/continuous_ocp.hpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/control/continuous_ocp.hpp b/src/control/continuous_ocp.hpp
index 657d36b..abb7141 100644
--- a/src/control/continuous_ocp.hpp
+++ b/src/control/continuous_ocp.hpp
@@ -1003,9 +1003,8 @@ void ContinuousOCP<OCP, Approximation, MatrixFormat>::_equalities_linearised_spa
             std::copy_n(jac.col(j).data(), NX, jacobian.valuePtr() + jacobian.outerIndexPtr()[k + j] + nnz_count);
 
         /** copy control sensitivities */
-        //for(int j = 0; j < NU; ++j)
-        //    std::copy_n(jac.col(j + NX).data(), NX, jacobian.valuePtr() + jacobian.outerIndexPtr()[j + n + VARX_SIZE]);
-        std::copy_n(jac.template block<NX, NU>(0, NX).data(), NX * NU, jacobian.valuePtr() + jacobian.outerIndexPtr()[n + VARX_SIZE]);
+        for(int j = 0; j < NU; ++j)
+            std::copy_n(jac.col(j + NX).data(), NX, jacobian.valuePtr() + jacobian.outerIndexPtr()[j + n + VARX_SIZE]);
 
         for(int j = 0; j < NP; ++j)
             std::copy_n(jac.col(j + NX + NU).data(), NX, jacobian.valuePtr() + jacobian.outerIndexPtr()[j + VARX_SIZE + VARU_SIZE] + t * NX);
@@ -1118,10 +1117,12 @@ ContinuousOCP<OCP, Approximation, MatrixFormat>::_inequalities_linearised_sparse
         }
 
         /** copy state sensitivities */
-        std::copy_n(jac.template block<NG, NX>(0, 0).data(), NG * NX, jacobian.valuePtr() + jacobian.outerIndexPtr()[k * NX]);
+        for(int j = 0; j < NX; ++j)
+            std::copy_n(jac.col(j).data(), NG, jacobian.valuePtr() + jacobian.outerIndexPtr()[j + k * NX]);
 
         /** copy control sensitivities */
-        std::copy_n(jac.template block<NG, NU>(0, NX).data(), NG * NU, jacobian.valuePtr() + jacobian.outerIndexPtr()[k * NU + VARX_SIZE]);
+        for(int j = 0; j < NU; ++j)
+            std::copy_n(jac.col(j + NX).data(), NG, jacobian.valuePtr() + jacobian.outerIndexPtr()[j + k * NU + VARX_SIZE]);
 
         /** @bug: iterate over NP columns */
         for(int j = 0; j < NP; ++j)
-- 
2.43.0


From 2581b82a04c3c6f273f4b9f986a329af3ba7923f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:26 +0000
Subject: [PATCH 14/26] fix: MPC time interpolation ignored the start of the
 horizon

solution_x_at(t) and solution_u_at(t) chose the segment from the absolute time, so with t_start != 0
the wrong (last) segment was evaluated; the interpolation basis was built in absolute time as well and
lost all accuracy for large clock values. Use the time since the beginning of the horizon.
---
 src/control/mpc_wrapper.hpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/control/mpc_wrapper.hpp b/src/control/mpc_wrapper.hpp
index 8d05fa9..4fd52d9 100644
--- a/src/control/mpc_wrapper.hpp
+++ b/src/control/mpc_wrapper.hpp
@@ -47,7 +47,7 @@ public:
         time_grid = this->ocp().time_nodes.reverse();
         time_nodes = time_grid.template head<OCP::nodes_t::RowsAtCompileTime>();
 
-        polympc::LagrangeSpline::compute_lagrange_basis(time_nodes, m_basis);
+        polympc::LagrangeSpline::compute_lagrange_basis((time_nodes.array() - this->ocp().t_start).matrix(), m_basis);
         sgm_length = (m_solver.get_problem().t_stop - m_solver.get_problem().t_start) / num_segms;
         nodes_per_segm = std::floor(num_nodes / num_segms);
     }
@@ -81,7 +81,7 @@ public:
         // update time grid and Lagrange interpolator
         time_grid = this->ocp().time_nodes.reverse();
         time_nodes = time_grid.template head<OCP::nodes_t::RowsAtCompileTime>();
-        polympc::LagrangeSpline::compute_lagrange_basis(time_nodes, m_basis);
+        polympc::LagrangeSpline::compute_lagrange_basis((time_nodes.array() - this->ocp().t_start).matrix(), m_basis);
         sgm_length = (tf - t0) / num_segms;
     }
 
@@ -245,10 +245,11 @@ public:
     inline state_t solution_x_at(const scalar_t& t) const noexcept
     {
         auto x_reshaped = solution_x_reshaped();
-        Eigen::Index idx = (Eigen::Index)std::floor( t / sgm_length);
+        const scalar_t tau = t - this->ocp().t_start; // time since the beginning of the horizon
+        Eigen::Index idx = (Eigen::Index)std::floor( tau / sgm_length);
         idx = std::max(Eigen::Index(0), std::min(idx, (Eigen::Index)num_segms - 1)); // clip idx to stay within the spline bounds
 
-        state_t state = polympc::LagrangeSpline::eval(t - idx * sgm_length, x_reshaped.template block<nx,
+        state_t state = polympc::LagrangeSpline::eval(tau - idx * sgm_length, x_reshaped.template block<nx,
                                                       OCP::nodes_t::RowsAtCompileTime>(0, idx * nodes_per_segm), m_basis);
 
         return state;
@@ -271,10 +272,11 @@ public:
     inline control_t solution_u_at(const scalar_t& t) const noexcept
     {
         auto u_reshaped = solution_u_reshaped();
-        Eigen::Index idx = (Eigen::Index)std::floor( t / sgm_length);
+        const scalar_t tau = t - this->ocp().t_start; // time since the beginning of the horizon
+        Eigen::Index idx = (Eigen::Index)std::floor( tau / sgm_length);
         idx = std::max(Eigen::Index(0), std::min(idx, (Eigen::Index)num_segms - 1)); // clip idx to stay within the spline bounds
 
-        control_t state = polympc::LagrangeSpline::eval(t - idx * sgm_length, u_reshaped.template block<nu,
+        control_t state = polympc::LagrangeSpline::eval(tau - idx * sgm_length, u_reshaped.template block<nu,
                                                       OCP::nodes_t::RowsAtCompileTime>(0, idx * nodes_per_segm), m_basis);
 
         return state;
-- 
2.43.0


From 54d9c1b31a01623a70b1105a29b228e5b0947a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:22 +0000
Subject: [PATCH 15/26] fix: SQP solver reported uninitialised status and
 statistics before the first solve

---
 src/solvers/sqp_base.hpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/solvers/sqp_base.hpp b/src/solvers/sqp_base.hpp
index 481cc9d..facd0bb 100644
--- a/src/solvers/sqp_base.hpp
+++ b/src/solvers/sqp_base.hpp
@@ -50,13 +50,14 @@ struct sqp_status_t {
     enum {
         SOLVED,
         MAX_ITER_EXCEEDED,
-        INVALID_SETTINGS
-    } value;
+        INVALID_SETTINGS,
+        UNSOLVED
+    } value = UNSOLVED;
 };
 
 struct sqp_info_t {
-    int iter;
-    int qp_solver_iter;
+    int iter = 0;
+    int qp_solver_iter = 0;
     sqp_status_t status;
 };
 
@@ -147,8 +148,8 @@ public:
   /** temporary storage for Lagrange gradient */
   nlp_variable_t m_lag_gradient;
   nlp_variable_t m_step_prev;
-  scalar_t m_primal_norm;
-  scalar_t m_dual_norm;
+  scalar_t m_primal_norm{0};
+  scalar_t m_dual_norm{0};
   scalar_t m_max_violation{0};
   bool     m_merit_undefined{false}; // the last line search failed because the merit function was not a finite number
 
-- 
2.43.0


From fa0430c7ed8de55bce662bcdbc58b22876f421e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:22 +0000
Subject: [PATCH 16/26] fix: Lagrange basis of fixed-size nodes used the heap

---
 src/polynomials/splines.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/polynomials/splines.hpp b/src/polynomials/splines.hpp
index 6f193c6..6a27d7d 100644
--- a/src/polynomials/splines.hpp
+++ b/src/polynomials/splines.hpp
@@ -104,12 +104,13 @@ public:
     template<typename Derived, typename Derived2>
     static void compute_lagrange_basis(const Eigen::MatrixBase<Derived>& nodes, Eigen::MatrixBase<Derived2>& basis) noexcept
     {
+        enum { num_roots = Derived::RowsAtCompileTime == Eigen::Dynamic ? Eigen::Dynamic : Derived::RowsAtCompileTime - 1 };
         typename Derived::PlainObject polynomial(nodes.rows()); polynomial.setZero();
         basis = Eigen::MatrixBase<Derived2>::Zero(nodes.rows(), nodes.rows());
 
         for(unsigned i = 0; i < basis.rows(); ++i)
         {
-            Eigen::Matrix<typename Derived::Scalar, Eigen::Dynamic, 1> roots(nodes.rows() - 1);
+            Eigen::Matrix<typename Derived::Scalar, num_roots, 1> roots(nodes.rows() - 1);
             unsigned count = 0;
             for(unsigned j = 0; j < nodes.rows(); ++j)
             {    if(i != j)
-- 
2.43.0


From 2dc32911401d74a8796a2a4d7082a7c7301006f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:22 +0000
Subject: [PATCH 17/26] fix: OSQP interface solved the previous problem again
 and warm started an uninitialised workspace

---
 src/solvers/osqp_interface.hpp | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/solvers/osqp_interface.hpp b/src/solvers/osqp_interface.hpp
index 98504b0..55bd9ed 100644
--- a/src/solvers/osqp_interface.hpp
+++ b/src/solvers/osqp_interface.hpp
@@ -57,7 +57,7 @@ public:
         x_lower_bound. template head<M>() = Alb;
         x_lower_bound. template tail<N>() = xlb;
 
-        if(this->m_settings.warm_start)
+        if(this->m_settings.warm_start && osqp_solver.isInitialized())
         {
             osqp_solver.updateHessianMatrix(H);
             osqp_solver.updateGradient(h);
@@ -70,13 +70,22 @@ public:
         {
             m_h = h;
 
+            // OSQP keeps its data and workspace until they are cleared: otherwise it would solve the previous problem again
+            osqp_solver.clearSolver();
+            osqp_solver.data()->clearHessianMatrix();
+            osqp_solver.data()->clearLinearConstraintsMatrix();
+
             osqp_solver.data()->setHessianMatrix(H);
             osqp_solver.data()->setGradient(m_h);
             osqp_solver.data()->setLinearConstraintsMatrix(m_A);
             osqp_solver.data()->setLowerBound(x_lower_bound);
             osqp_solver.data()->setUpperBound(x_upper_bound);
 
-            osqp_solver.initSolver();
+            if(!osqp_solver.initSolver()) // the problem data is rejected: there is no workspace to solve
+            {
+                this->m_info.status = UNSOLVED;
+                return UNSOLVED;
+            }
             osqp_solver.solveProblem();
         }
 
@@ -116,7 +125,7 @@ public:
         x_lower_bound. template tail<N>() = xlb;
 
         //Eigen::VectorXd h_ = h; // hack start an issue on github
-        if(this->m_settings.warm_start)
+        if(this->m_settings.warm_start && osqp_solver.isInitialized())
         {
             osqp_solver.updateHessianMatrix(H);
             osqp_solver.updateGradient(h);
@@ -131,13 +140,22 @@ public:
         {
             m_h = h;
 
+            // OSQP keeps its data and workspace until they are cleared: otherwise it would solve the previous problem again
+            osqp_solver.clearSolver();
+            osqp_solver.data()->clearHessianMatrix();
+            osqp_solver.data()->clearLinearConstraintsMatrix();
+
             osqp_solver.data()->setHessianMatrix(H);
             osqp_solver.data()->setGradient(m_h);
             osqp_solver.data()->setLinearConstraintsMatrix(m_A);
             osqp_solver.data()->setLowerBound(x_lower_bound);
             osqp_solver.data()->setUpperBound(x_upper_bound);
 
-            osqp_solver.initSolver();
+            if(!osqp_solver.initSolver()) // the problem data is rejected: there is no workspace to solve
+            {
+                this->m_info.status = UNSOLVED;
+                return UNSOLVED;
+            }
             osqp_solver.setWarmStart(x_guess, y_guess);
             osqp_solver.solveProblem();
         }
-- 
2.43.0


From 0a5ad8d91a89940a3260a7d962d969169c753d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:22 +0000
Subject: [PATCH 18/26] fix: OSQP interface reported the dual residual as the
 primal one

---
 src/solvers/osqp_interface.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/solvers/osqp_interface.hpp b/src/solvers/osqp_interface.hpp
index 55bd9ed..2a81b63 100644
--- a/src/solvers/osqp_interface.hpp
+++ b/src/solvers/osqp_interface.hpp
@@ -93,7 +93,8 @@ public:
         this->m_y = osqp_solver.getDualSolution();
 
         this->m_info.iter = osqp_solver.workspace()->info->iter;
-        this->m_info.res_prim = osqp_solver.workspace()->info->dua_res;
+        this->m_info.res_prim = osqp_solver.workspace()->info->pri_res;
+        this->m_info.res_dual = osqp_solver.workspace()->info->dua_res;
         this->m_info.rho_updates = osqp_solver.workspace()->info->rho_updates;
         this->m_info.rho_estimate = osqp_solver.workspace()->info->rho_estimate;
 
@@ -164,7 +165,8 @@ public:
         this->m_y = osqp_solver.getDualSolution();
 
         this->m_info.iter = osqp_solver.workspace()->info->iter;
-        this->m_info.res_prim = osqp_solver.workspace()->info->dua_res;
+        this->m_info.res_prim = osqp_solver.workspace()->info->pri_res;
+        this->m_info.res_dual = osqp_solver.workspace()->info->dua_res;
         this->m_info.rho_updates = osqp_solver.workspace()->info->rho_updates;
         this->m_info.rho_estimate = osqp_solver.workspace()->info->rho_estimate;
 
-- 
2.43.0


From ae62bcaba70f113dc719ea36f93a4ace68ce6c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:22 +0000
Subject: [PATCH 19/26] fix: QPMAD interface left the status of the previous
 solve in info after a failure

---
 src/solvers/qpmad_interface.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solvers/qpmad_interface.hpp b/src/solvers/qpmad_interface.hpp
index 7b4a8ef..ef10bc9 100644
--- a/src/solvers/qpmad_interface.hpp
+++ b/src/solvers/qpmad_interface.hpp
@@ -84,7 +84,7 @@ public:
         {
             case solver_t::ReturnStatus::OK : {this->m_info.status = status_t::SOLVED; return status_t::SOLVED;}
             case solver_t::ReturnStatus::MAXIMAL_NUMBER_OF_ITERATIONS : {this->m_info.status = status_t::MAX_ITER_EXCEEDED; return status_t::MAX_ITER_EXCEEDED;}
-            default: return status_t::UNSOLVED;
+            default: {this->m_info.status = status_t::UNSOLVED; return status_t::UNSOLVED;}
         }
     }
 
-- 
2.43.0


From 103b07f04cac6c45c5ab61e7bb7cc4430ad8232b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:22 +0000
Subject: [PATCH 20/26] fix: QPMAD interface with an initial guess did not use
 the current solver interface

---
 src/solvers/qpmad_interface.hpp | 16 ++--------------
 1 file changed, 2 insertions(+), 14 deletions(-)

diff --git a/src/solvers/qpmad_interface.hpp b/src/solvers/qpmad_interface.hpp
index ef10bc9..ba26c48 100644
--- a/src/solvers/qpmad_interface.hpp
+++ b/src/solvers/qpmad_interface.hpp
@@ -93,22 +93,10 @@ public:
                         const Eigen::Ref<const qp_var_t>& xlb, const Eigen::Ref<const qp_var_t>& xub,
                         const Eigen::Ref<const qp_var_t>& x_guess, const Eigen::Ref<const qp_dual_t>& y_guess) noexcept
     {
-        set_qpmad_settings();
+        polympc::ignore_unused_var(y_guess); // the active set method cannot make use of dual variables
         this->m_x = x_guess;
 
-        /** @bug : temporary fix until the new interface is released */
-        qpmad::QPVector primal  = Eigen::Map<qpmad::QPVector>(this->m_x.data(), this->m_x.rows());
-        qpmad::QPMatrix hessian(H);
-        qpmad::Solver::ReturnStatus status = qpmad_solver.solve(primal, hessian, h, xlb, xub, A, Alb, Aub, qpmad_parameters);
-
-        this->m_x = primal;
-
-        switch (status)
-        {
-            case qpmad::Solver::OK : {this->m_info.status = status_t::SOLVED; return status_t::SOLVED;}
-            case qpmad::Solver::MAXIMAL_NUMBER_OF_ITERATIONS : {this->m_info.status = status_t::MAX_ITER_EXCEEDED; return status_t::MAX_ITER_EXCEEDED;}
-            default: return status_t::UNSOLVED;
-        }
+        return solve_impl(H, h, A, Alb, Aub, xlb, xub);
     }
 
 
-- 
2.43.0


From 35810071003e8dd9e45e9f13cea9d9eeedc47053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:22 +0000
Subject: [PATCH 21/26] fix: Ipopt adapter never delivered the values of sparse
 Jacobians

---
 src/solvers/ipopt_interface.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/solvers/ipopt_interface.hpp b/src/solvers/ipopt_interface.hpp
index b2b136c..6342553 100644
--- a/src/solvers/ipopt_interface.hpp
+++ b/src/solvers/ipopt_interface.hpp
@@ -106,7 +106,12 @@ public:
                 }
         }
         else
-            data = mat.derived().valuePtr();
+        {
+            int ind = 0;
+            for (int k = 0; k < mat.outerSize(); ++k)
+                for (typename Eigen::SparseMatrix<scalar_t>::InnerIterator it(mat, k); it; ++it, ++ind)
+                    data[ind] = it.value();
+        }
     }
 
     template<typename MatrixType, int T = Problem::MATRIXFMT>
-- 
2.43.0


From 3b1264975f7fa4848c45fdc824f35298989b609c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:22 +0000
Subject: [PATCH 22/26] fix: Ipopt adapter read past the end of the multipliers
 provided by Ipopt

---
 src/solvers/ipopt_interface.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/solvers/ipopt_interface.hpp b/src/solvers/ipopt_interface.hpp
index 6342553..c60d723 100644
--- a/src/solvers/ipopt_interface.hpp
+++ b/src/solvers/ipopt_interface.hpp
@@ -364,8 +364,10 @@ public:
         {
             // // return the values. This is a symmetric matrix, fill the lower left
             // // triangle only
-            problem.lagrangian_gradient_hessian(Eigen::Map<const nlp_variable_t>(x), m_p,
-                                                Eigen::Map<const nlp_dual_t>(lambda), m_cost,
+            nlp_dual_t lam = nlp_dual_t::Zero(); // Ipopt provides the multipliers of the constraints only
+            lam.template head<num_constraints>() = Eigen::Map<const nlp_constraints_t>(lambda);
+
+            problem.lagrangian_gradient_hessian(Eigen::Map<const nlp_variable_t>(x), m_p, lam, m_cost,
                                                 m_h, m_H, m_dlag, m_g, m_A, obj_factor);
 
             get_data(m_H, values, true);
@@ -380,7 +382,8 @@ public:
                            Ipopt::IpoptCalculatedQuantities* ip_cq) override
     {
         m_x   = Eigen::Map<const nlp_variable_t>(x);
-        m_lam = Eigen::Map<const nlp_dual_t>(lambda);
+        m_lam.template head<num_constraints>() = Eigen::Map<const nlp_constraints_t>(lambda);
+        m_lam.template tail<num_variables>() = Eigen::Map<const nlp_variable_t>(z_U) - Eigen::Map<const nlp_variable_t>(z_L);
         m_cost = obj_value;
 
         /** @todo: Fill in the rest of the solution struct */
-- 
2.43.0


From 48ebedae10ee0b2e6a5069dc7b29e634c3aec5c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:22 +0000
Subject: [PATCH 23/26] fix: Ipopt interface returned its internal adapter as
 the problem

---
 src/solvers/ipopt_interface.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/solvers/ipopt_interface.hpp b/src/solvers/ipopt_interface.hpp
index c60d723..a13b2f9 100644
--- a/src/solvers/ipopt_interface.hpp
+++ b/src/solvers/ipopt_interface.hpp
@@ -440,8 +440,8 @@ public:
     EIGEN_STRONG_INLINE const nlp_settings_t& settings() const noexcept { return *(m_app->Options()); }
     EIGEN_STRONG_INLINE nlp_settings_t& settings() noexcept { return *(m_app->Options()); }
 
-    EIGEN_STRONG_INLINE const Problem& get_problem() const noexcept { return *(m_problem); }
-    EIGEN_STRONG_INLINE Problem& get_problem() noexcept { return *(m_problem); }
+    EIGEN_STRONG_INLINE const Problem& get_problem() const noexcept { return m_problem->problem; }
+    EIGEN_STRONG_INLINE Problem& get_problem() noexcept { return m_problem->problem; }
 
     EIGEN_STRONG_INLINE const ipopt_info_t& info() const noexcept { return m_info; }
     EIGEN_STRONG_INLINE ipopt_info_t& info() noexcept { return m_info; }
-- 
2.43.0


From dcfb532ba16001e077357a9c407e95926ea9b35c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:22 +0000
Subject: [PATCH 24/26] fix: Ipopt interface read missing statistics if Ipopt
 rejects the problem

---
 src/solvers/ipopt_interface.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/solvers/ipopt_interface.hpp b/src/solvers/ipopt_interface.hpp
index a13b2f9..78593fd 100644
--- a/src/solvers/ipopt_interface.hpp
+++ b/src/solvers/ipopt_interface.hpp
@@ -22,8 +22,8 @@
 
 /** Ipopt info */
 struct ipopt_info_t {
-    int iter;
-    Ipopt::ApplicationReturnStatus status;
+    int iter = 0;
+    Ipopt::ApplicationReturnStatus status = Ipopt::Internal_Error;
 };
 
 
@@ -488,6 +488,12 @@ public:
         }
 
         m_info.status = status;
+        m_info.iter = 0;
+
+        // Ipopt keeps no statistics if it rejects the problem
+        if( !Ipopt::IsValid(m_app->Statistics()) )
+            return;
+
         m_info.iter = (int) m_app->Statistics()->IterationCount();
         Ipopt::Number complementarity, kkt_error, bounds_violation;
         m_app->Statistics()->Infeasibilities(m_dual_norm, m_max_violation, bounds_violation, complementarity, kkt_error);
-- 
2.43.0


From dd0961e9951f4c057317b97700d8579396e4dd7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:33 +0000
Subject: [PATCH 25/26] fix: cubic spline read past its last segment at and
 beyond the end of the path

---
 src/polynomials/splines.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/polynomials/splines.hpp b/src/polynomials/splines.hpp
index 6a27d7d..225f3b6 100644
--- a/src/polynomials/splines.hpp
+++ b/src/polynomials/splines.hpp
@@ -80,7 +80,7 @@ public:
         #undef min
         #undef max
 #endif
-        idx = std::max(Eigen::Index(0), std::min(idx, m_coeffs.cols())); // clip idx stay within the spline bounds
+        idx = std::max(Eigen::Index(0), std::min(idx, m_coeffs.cols() - 1)); // clip idx stay within the spline bounds
 
         // evaluate polynomial using Horner's method
         return m_coeffs.col(idx)(0) + x * (m_coeffs.col(idx)(1) + x * (m_coeffs.col(idx)(2) + x * m_coeffs.col(idx)(3)));
-- 
2.43.0


From 6ccad1853e00b7b60bb56b346bf428534cf6e66f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:33 +0000
Subject: [PATCH 26/26] fix: sparse QP solvers crashed on matrices in
 compressed storage

---
 src/solvers/admm.hpp           | 11 +++++++----
 src/solvers/box_admm.hpp       |  6 ++++--
 src/solvers/osqp_interface.hpp |  5 +++--
 src/solvers/qp_base.hpp        |  7 +++++++
 4 files changed, 21 insertions(+), 8 deletions(-)

diff --git a/src/solvers/admm.hpp b/src/solvers/admm.hpp
index 14c1456..7c4678c 100644
--- a/src/solvers/admm.hpp
+++ b/src/solvers/admm.hpp
@@ -229,13 +229,14 @@ public:
         {
             /** copy the new A block */
             for(Eigen::Index k = 0; k < N; ++k)
-                std::copy_n(A.valuePtr() + A.outerIndexPtr()[k], A.innerNonZeroPtr()[k], m_A.valuePtr() + m_A.outerIndexPtr()[k]);
+                std::copy_n(A.valuePtr() + A.outerIndexPtr()[k], this->column_nnz(A, k), m_A.valuePtr() + m_A.outerIndexPtr()[k]);
         }
         else
         {
             m_A.resize(N + M, N);
             _A_mat_nnz = Eigen::VectorXi::Constant(N, 1); // allocate box constraints
-            std::transform(_A_mat_nnz.data(), _A_mat_nnz.data() + N, A.innerNonZeroPtr(), _A_mat_nnz.data(), std::plus<scalar_t>());
+            for(Eigen::Index k = 0; k < N; ++k)
+                _A_mat_nnz(k) += this->column_nnz(A, k);
             // reserve the memory
             m_A.reserve(_A_mat_nnz);
             block_insert_sparse(m_A, 0, 0, A);  //insert A matrix
@@ -287,9 +288,11 @@ public:
         /** estimate number of nonzeros */
         _kkt_mat_nnz = Eigen::VectorXi::Constant(kkt_size, 1);
         // add nonzeros from H
-        std::transform(_kkt_mat_nnz.data(), _kkt_mat_nnz.data() + N, H.innerNonZeroPtr(), _kkt_mat_nnz.data(), std::plus<scalar_t>());
+        for(Eigen::Index k = 0; k < N; ++k)
+            _kkt_mat_nnz(k) += this->column_nnz(H, k);
         // add nonzeros from A
-        std::transform(_kkt_mat_nnz.data(), _kkt_mat_nnz.data() + N, A.innerNonZeroPtr(), _kkt_mat_nnz.data(), std::plus<scalar_t>());
+        for(Eigen::Index k = 0; k < N; ++k)
+            _kkt_mat_nnz(k) += this->column_nnz(A, k);
 
         // reserve the space and insert values from H and A
         if(LinearSolver_UpLo == (Eigen::Upper|Eigen::Lower))
diff --git a/src/solvers/box_admm.hpp b/src/solvers/box_admm.hpp
index 84bf9af..7c95599 100644
--- a/src/solvers/box_admm.hpp
+++ b/src/solvers/box_admm.hpp
@@ -247,9 +247,11 @@ public:
         /** estimate number of nonzeros */
         _kkt_mat_nnz = Eigen::VectorXi::Constant(kkt_size, 1);
         // add nonzeros from H
-        std::transform(_kkt_mat_nnz.data(), _kkt_mat_nnz.data() + N, H.innerNonZeroPtr(), _kkt_mat_nnz.data(), std::plus<scalar_t>());
+        for(Eigen::Index k = 0; k < N; ++k)
+            _kkt_mat_nnz(k) += this->column_nnz(H, k);
         // add nonzeros from A
-        std::transform(_kkt_mat_nnz.data(), _kkt_mat_nnz.data() + N, A.innerNonZeroPtr(), _kkt_mat_nnz.data(), std::plus<scalar_t>());
+        for(Eigen::Index k = 0; k < N; ++k)
+            _kkt_mat_nnz(k) += this->column_nnz(A, k);
 
         // reserve the space and insert values from H and A
         if(LinearSolver_UpLo == (Eigen::Upper|Eigen::Lower))
diff --git a/src/solvers/osqp_interface.hpp b/src/solvers/osqp_interface.hpp
index 2a81b63..3fd6daf 100644
--- a/src/solvers/osqp_interface.hpp
+++ b/src/solvers/osqp_interface.hpp
@@ -201,13 +201,14 @@ private:
         {
             /** copy the new A block */
             for(Eigen::Index k = 0; k < N; ++k)
-                std::copy_n(A.valuePtr() + A.outerIndexPtr()[k], A.innerNonZeroPtr()[k], m_A.valuePtr() + m_A.outerIndexPtr()[k]);
+                std::copy_n(A.valuePtr() + A.outerIndexPtr()[k], this->column_nnz(A, k), m_A.valuePtr() + m_A.outerIndexPtr()[k]);
         }
         else
         {
             m_A.resize(N + M, N);
             Eigen::VectorXi _A_mat_nnz = Eigen::VectorXi::Constant(N, 1); // allocate box constraints
-            std::transform(_A_mat_nnz.data(), _A_mat_nnz.data() + N, A.innerNonZeroPtr(), _A_mat_nnz.data(), std::plus<scalar_t>());
+            for(Eigen::Index k = 0; k < N; ++k)
+                _A_mat_nnz(k) += this->column_nnz(A, k);
             // reserve the memory
             m_A.reserve(_A_mat_nnz);
             block_insert_sparse(m_A, 0, 0, A);  //insert A matrix
diff --git a/src/solvers/qp_base.hpp b/src/solvers/qp_base.hpp
index e11963f..375a6d7 100644
--- a/src/solvers/qp_base.hpp
+++ b/src/solvers/qp_base.hpp
@@ -221,6 +221,13 @@ class QPBase
 
     }
 
+    /** number of the entries stored in the k-th column of a sparse matrix, compressed or not */
+    template<typename SparseMat>
+    static EIGEN_STRONG_INLINE Eigen::Index column_nnz(const SparseMat& mat, const Eigen::Index& k) noexcept
+    {
+        return mat.isCompressed() ? mat.outerIndexPtr()[k + 1] - mat.outerIndexPtr()[k] : mat.innerNonZeroPtr()[k];
+    }
+
     /** standard function to estimate primal residual */
     EIGEN_STRONG_INLINE scalar_t primal_residual(const Eigen::Ref<const qp_constraint_t>& A, const Eigen::Ref<const qp_var_t>& x,
                                                  const Eigen::Ref<const qp_dual_a_t>& b) const noexcept
-- 
2.43.0

