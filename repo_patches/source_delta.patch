From acc2f6f22ffc977158a9f0d5ed4333d7eb0afc6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:09 +0000
Subject: [PATCH 01/66] fix: make nxu private in parallel stage loops of
 SQP_WITH_FEASIBLE_QP

---
 acados/ocp_nlp/ocp_nlp_sqp_with_feasible_qp.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/acados/ocp_nlp/ocp_nlp_sqp_with_feasible_qp.c b/acados/ocp_nlp/ocp_nlp_sqp_with_feasible_qp.c
index 297afc8..f3257b7 100644
--- a/acados/ocp_nlp/ocp_nlp_sqp_with_feasible_qp.c
+++ b/acados/ocp_nlp/ocp_nlp_sqp_with_feasible_qp.c
@@ -916,7 +916,6 @@ static void setup_hessian_matrices_for_qps(ocp_nlp_config *config,
     int *nu = dims->nu;
     int *ns = dims->ns;
 
-    int nxu;
 #if defined(ACADOS_WITH_OPENMP)
     #pragma omp parallel for
 #endif
@@ -924,7 +923,7 @@ static void setup_hessian_matrices_for_qps(ocp_nlp_config *config,
     {
         /* Hessian matrices */
         // hess_QP = hess_cost + hess_constraints
-        nxu = nx[i]+nu[i];
+        int nxu = nx[i]+nu[i];
 
         if (opts->use_constraint_hessian_in_feas_qp)
         {
@@ -1382,7 +1381,6 @@ static void initial_setup_feasibility_qp_objective(ocp_nlp_config *config,
     int *ns = dims->ns;
     int *nns = mem->nns;
 
-    int nxu;
 #if defined(ACADOS_WITH_OPENMP)
     #pragma omp parallel for
 #endif
@@ -1390,7 +1388,7 @@ static void initial_setup_feasibility_qp_objective(ocp_nlp_config *config,
     {
         /* Hessian matrices */
         // hess_QP = hess_cost + hess_constraints
-        nxu = nx[i]+nu[i];
+        int nxu = nx[i]+nu[i];
 
         blasfeo_dgese(nxu, nxu, 0.0, relaxed_qp_in->RSQrq+i, 0, 0);
         if (!opts->use_constraint_hessian_in_feas_qp)
-- 
2.43.0


From ccb033d982a56759ba3ad57b1c00755ba76aa6eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:09 +0000
Subject: [PATCH 02/66] fix: set qp_in->d_mask outside of the parallel region
 of alias_memory_to_submodules

---
 acados/ocp_nlp/ocp_nlp_common.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/acados/ocp_nlp/ocp_nlp_common.c b/acados/ocp_nlp/ocp_nlp_common.c
index d708b51..f216995 100644
--- a/acados/ocp_nlp/ocp_nlp_common.c
+++ b/acados/ocp_nlp/ocp_nlp_common.c
@@ -2777,6 +2777,10 @@ static void ocp_nlp_regularize_set_qp_out_ptrs(ocp_nlp_reg_config *reg_config, o
 void ocp_nlp_alias_memory_to_submodules(ocp_nlp_config *config, ocp_nlp_dims *dims, ocp_nlp_in *nlp_in,
          ocp_nlp_out *nlp_out, ocp_nlp_opts *opts, ocp_nlp_memory *nlp_mem, ocp_nlp_workspace *nlp_work)
 {
+    // set pointer to dmask in qp_in to dmask in nlp_in
+    // NOTE: shared by all stages, thus not set within the parallel region
+    nlp_mem->qp_in->d_mask = nlp_in->dmask;
+
 #if defined(ACADOS_WITH_OPENMP)
     #pragma omp parallel
     { // beginning of parallel region
@@ -2890,9 +2894,6 @@ void ocp_nlp_alias_memory_to_submodules(ocp_nlp_config *config, ocp_nlp_dims *di
         }
     }
 
-    // set pointer to dmask in qp_in to dmask in nlp_in
-    nlp_mem->qp_in->d_mask = nlp_in->dmask;
-
     // copy sampling times into dynamics model
 #if defined(ACADOS_WITH_OPENMP)
     #pragma omp for nowait
-- 
2.43.0


From e9962db278fdc69a3cc754db845675e1243e534b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:59 +0000
Subject: [PATCH 03/66] fix: DDP: do not report success if the initial state
 constraint is violated

---
 acados/ocp_nlp/ocp_nlp_ddp.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/acados/ocp_nlp/ocp_nlp_ddp.c b/acados/ocp_nlp/ocp_nlp_ddp.c
index e9349b8..0a0abfd 100644
--- a/acados/ocp_nlp/ocp_nlp_ddp.c
+++ b/acados/ocp_nlp/ocp_nlp_ddp.c
@@ -449,10 +449,10 @@ static bool check_termination(int ddp_iter, ocp_nlp_res *nlp_res, ocp_nlp_ddp_me
         return true;
     }
 
-    // We do not need to check for the complementarity condition and for the
-    // inequalities since we have an unconstrainted OCP
-    if (nlp_res->inf_norm_res_eq < nlp_opts->tol_eq)
-    { // Check that iterate must be dynamically feasible
+    // We do not need to check for the complementarity condition since we have an
+    // unconstrained OCP, the inequalities only contain the initial state constraint.
+    if ((nlp_res->inf_norm_res_eq < nlp_opts->tol_eq) && (nlp_res->inf_norm_res_ineq < nlp_opts->tol_ineq))
+    { // Check that iterate must be dynamically feasible and start at the initial state
         if (nlp_res->inf_norm_res_stat < nlp_opts->tol_stat)
         {// Check Stationarity
             nlp_mem->status = ACADOS_SUCCESS;
@@ -651,7 +651,8 @@ int ocp_nlp_ddp(void *config_, void *dims_, void *nlp_in_, void *nlp_out_,
         }
 
         // Check if initial guess was infeasible
-        if ((infeasible_initial_guess == true) && (nlp_res->inf_norm_res_eq > nlp_opts->tol_eq))
+        if ((infeasible_initial_guess == true) &&
+            ((nlp_res->inf_norm_res_eq > nlp_opts->tol_eq) || (nlp_res->inf_norm_res_ineq > nlp_opts->tol_ineq)))
         {
             if (nlp_opts->print_level > 0)
             {
-- 
2.43.0


From ceaf392c8e20622be9140269d752d7e59705f4bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:20 +0000
Subject: [PATCH 04/66] fix: DDP: damp multipliers with respect to the current
 iterate, not the previous trial iterate

---
 acados/ocp_nlp/ocp_nlp_ddp.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/acados/ocp_nlp/ocp_nlp_ddp.c b/acados/ocp_nlp/ocp_nlp_ddp.c
index 0a0abfd..d4a18d1 100644
--- a/acados/ocp_nlp/ocp_nlp_ddp.c
+++ b/acados/ocp_nlp/ocp_nlp_ddp.c
@@ -410,12 +410,10 @@ void ocp_nlp_ddp_compute_trial_iterate(void *config_, void *dims_,
         else
         {
             // update duals with alpha step
-            blasfeo_dvecsc(2*ni[i], 1.0-alpha, out_destination->lam+i, 0);
-            blasfeo_daxpy(2*ni[i], alpha, qp_out->lam+i, 0, out_destination->lam+i, 0, out_destination->lam+i, 0);
+            blasfeo_daxpby(2*ni[i], 1.0-alpha, out->lam+i, 0, alpha, qp_out->lam+i, 0, out_destination->lam+i, 0);
             if (i < N)
             {
-                blasfeo_dvecsc(nx[i+1], 1.0-alpha, out_destination->pi+i, 0);
-                blasfeo_daxpy(nx[i+1], alpha, qp_out->pi+i, 0, out_destination->pi+i, 0, out_destination->pi+i, 0);
+                blasfeo_daxpby(nx[i+1], 1.0-alpha, out->pi+i, 0, alpha, qp_out->pi+i, 0, out_destination->pi+i, 0);
             }
         }
 
-- 
2.43.0


From 318b4b82ab65445bb4718281491bccb5f9a94e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:41 +0000
Subject: [PATCH 05/66] fix: lifted IRK: reset also the sensitivities and
 linearization point used to expand K

---
 acados/sim/sim_lifted_irk_integrator.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/acados/sim/sim_lifted_irk_integrator.c b/acados/sim/sim_lifted_irk_integrator.c
index 00bdc42..3738cb5 100644
--- a/acados/sim/sim_lifted_irk_integrator.c
+++ b/acados/sim/sim_lifted_irk_integrator.c
@@ -474,10 +474,17 @@ int sim_lifted_irk_memory_set_to_zero(void *config_, void * dims_, void *opts_,
 
     int status = ACADOS_SUCCESS;
 
-    int nx;
+    int nx, nu;
     config->dims_get(config_, dims_, "nx", &nx);
+    config->dims_get(config_, dims_, "nu", &nu);
     for (int i = 0; i < opts->num_steps; i++)
+    {
         blasfeo_dvecse(nx * opts->ns, 0.0, &mem->K[i], 0);
+        blasfeo_dgese(nx * opts->ns, nx + nu, 0.0, &mem->JKf[i], 0, 0);
+    }
+    // last linearization point, used to expand K
+    blasfeo_dvecse(nx, 0.0, mem->x, 0);
+    blasfeo_dvecse(nu, 0.0, mem->u, 0);
 
     return status;
 }
-- 
2.43.0


From 0cc2ba2c90bdb28dcc623957c93a98a9c098f7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:06 +0000
Subject: [PATCH 06/66] fix: DDP: do not use the feedback gain of stage 0, it
 is not available if x0 is eliminated

---
 acados/ocp_nlp/ocp_nlp_ddp.c | 35 ++++++++++++++++++++++-------------
 1 file changed, 22 insertions(+), 13 deletions(-)

diff --git a/acados/ocp_nlp/ocp_nlp_ddp.c b/acados/ocp_nlp/ocp_nlp_ddp.c
index d4a18d1..d695d37 100644
--- a/acados/ocp_nlp/ocp_nlp_ddp.c
+++ b/acados/ocp_nlp/ocp_nlp_ddp.c
@@ -369,19 +369,28 @@ void ocp_nlp_ddp_compute_trial_iterate(void *config_, void *dims_,
         /* step in primal variables */
         // compute u   // (if i < N?)
         /* u_i = \bar{u}_i + alpha * k_i + K_i * (x_i - \bar{x}_i) */
-        // get K
-        xcond_solver_config->solver_get(xcond_solver_config, mem->qp_in, qp_out, opts->qp_solver_opts, mem->qp_solver_mem, "K", i, ddp_mem->tmp_nu_times_nx, nu[i], nx[i]);
-        blasfeo_pack_dmat(nu[i], nx[i], ddp_mem->tmp_nu_times_nx, nu[i], &ddp_mem->K_mat, 0, 0);
-
-        // get k = tmp_nv;
-        xcond_solver_config->solver_get(xcond_solver_config, mem->qp_in, qp_out, opts->qp_solver_opts, mem->qp_solver_mem, "k", i, work->tmp_nv_double, nu[i], 1);
-        blasfeo_pack_dvec(nu[i], work->tmp_nv_double, 1, &work->tmp_nv, 0);
-
-        // compute delta_u = alpha * k_i + K_i * (x_i - \bar{x}_i)
-        // tmp_nv[nu:] = (x_i - \bar{x}_i)
-        blasfeo_daxpby(nx[i], -1.0, out->ux+i, nu[i], 1.0, out_destination->ux+i, nu[i], &work->tmp_nv, nu[i]);
-        blasfeo_dgemv_n(nu[i], nx[i], 1.0, &ddp_mem->K_mat, 0, 0, &work->tmp_nv, nu[i], alpha, &work->tmp_nv, 0, &work->tmp_nv, 0);
-        blasfeo_daxpby(nu[i], 1.0, out->ux+i, 0, 1.0, &work->tmp_nv, 0, out_destination->ux+i, 0);
+        if (i == 0)
+        {
+            // x_0 - \bar{x}_0 = alpha * dx_0, thus alpha * k_0 + K_0 * (x_0 - \bar{x}_0) = alpha * du_0
+            // NOTE: K_0 can not be obtained from the QP solver, if x_0 is eliminated from the QP.
+            blasfeo_daxpy(nu[i], alpha, qp_out->ux+i, 0, out->ux+i, 0, out_destination->ux+i, 0);
+        }
+        else
+        {
+            // get K
+            xcond_solver_config->solver_get(xcond_solver_config, mem->qp_in, qp_out, opts->qp_solver_opts, mem->qp_solver_mem, "K", i, ddp_mem->tmp_nu_times_nx, nu[i], nx[i]);
+            blasfeo_pack_dmat(nu[i], nx[i], ddp_mem->tmp_nu_times_nx, nu[i], &ddp_mem->K_mat, 0, 0);
+
+            // get k = tmp_nv;
+            xcond_solver_config->solver_get(xcond_solver_config, mem->qp_in, qp_out, opts->qp_solver_opts, mem->qp_solver_mem, "k", i, work->tmp_nv_double, nu[i], 1);
+            blasfeo_pack_dvec(nu[i], work->tmp_nv_double, 1, &work->tmp_nv, 0);
+
+            // compute delta_u = alpha * k_i + K_i * (x_i - \bar{x}_i)
+            // tmp_nv[nu:] = (x_i - \bar{x}_i)
+            blasfeo_daxpby(nx[i], -1.0, out->ux+i, nu[i], 1.0, out_destination->ux+i, nu[i], &work->tmp_nv, nu[i]);
+            blasfeo_dgemv_n(nu[i], nx[i], 1.0, &ddp_mem->K_mat, 0, 0, &work->tmp_nv, nu[i], alpha, &work->tmp_nv, 0, &work->tmp_nv, 0);
+            blasfeo_daxpby(nu[i], 1.0, out->ux+i, 0, 1.0, &work->tmp_nv, 0, out_destination->ux+i, 0);
+        }
 
         // evalutate dynamics
         // x_{i+1} = f_dyn_i(x_i, u_i)
-- 
2.43.0


From c25ab2fa1c03b9761fb0dd7a3eedd00a61dc9eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:19 +0000
Subject: [PATCH 07/66] fix: DDP: keep the feedback term of the forward sweep
 if it is done in place (FIXED_STEP)

---
 acados/ocp_nlp/ocp_nlp_ddp.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/acados/ocp_nlp/ocp_nlp_ddp.c b/acados/ocp_nlp/ocp_nlp_ddp.c
index d695d37..787261b 100644
--- a/acados/ocp_nlp/ocp_nlp_ddp.c
+++ b/acados/ocp_nlp/ocp_nlp_ddp.c
@@ -386,8 +386,10 @@ void ocp_nlp_ddp_compute_trial_iterate(void *config_, void *dims_,
             blasfeo_pack_dvec(nu[i], work->tmp_nv_double, 1, &work->tmp_nv, 0);
 
             // compute delta_u = alpha * k_i + K_i * (x_i - \bar{x}_i)
-            // tmp_nv[nu:] = (x_i - \bar{x}_i)
-            blasfeo_daxpby(nx[i], -1.0, out->ux+i, nu[i], 1.0, out_destination->ux+i, nu[i], &work->tmp_nv, nu[i]);
+            // tmp_nv[nu:] = (x_i - \bar{x}_i) = f_dyn_{i-1}(x_{i-1}, u_{i-1}) - \bar{x}_i
+            // NOTE: do not use the difference of the iterates here, as out_destination and out can coincide.
+            tmp_vec = config->dynamics[i-1]->memory_get_fun_ptr(mem->dynamics[i-1]);
+            blasfeo_dveccp(nx[i], tmp_vec, 0, &work->tmp_nv, nu[i]);
             blasfeo_dgemv_n(nu[i], nx[i], 1.0, &ddp_mem->K_mat, 0, 0, &work->tmp_nv, nu[i], alpha, &work->tmp_nv, 0, &work->tmp_nv, 0);
             blasfeo_daxpby(nu[i], 1.0, out->ux+i, 0, 1.0, &work->tmp_nv, 0, out_destination->ux+i, 0);
         }
-- 
2.43.0


From 3c7f194518d243fbae4574af2b2138aec956b511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:40 +0000
Subject: [PATCH 08/66] fix: SQP_RTI: do not write QP statistics beyond the
 allocated rows

---
 acados/ocp_nlp/ocp_nlp_sqp_rti.c | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/acados/ocp_nlp/ocp_nlp_sqp_rti.c b/acados/ocp_nlp/ocp_nlp_sqp_rti.c
index d1169d4..895f513 100644
--- a/acados/ocp_nlp/ocp_nlp_sqp_rti.c
+++ b/acados/ocp_nlp/ocp_nlp_sqp_rti.c
@@ -393,6 +393,18 @@ static void rti_store_residuals_in_stats(ocp_nlp_sqp_rti_opts *opts, ocp_nlp_sqp
 
 
 
+static void rti_store_qp_info_in_stats(ocp_nlp_sqp_rti_memory *mem, int qp_status, int qp_iter)
+{
+    ocp_nlp_memory *nlp_mem = mem->nlp_mem;
+    // NOTE: iter can exceed the number of rows, e.g. if feedback is called repeatedly
+    if (nlp_mem->iter < mem->stat_m)
+    {
+        mem->stat[mem->stat_n * nlp_mem->iter+0] = qp_status;
+        mem->stat[mem->stat_n * nlp_mem->iter+1] = qp_iter;
+    }
+}
+
+
 static void prepare_full_residual_computation(ocp_nlp_config *config,
     ocp_nlp_dims *dims, ocp_nlp_in *in, ocp_nlp_out *out, ocp_nlp_opts *opts,
     ocp_nlp_memory *mem, ocp_nlp_workspace *work)
@@ -618,8 +630,7 @@ static void ocp_nlp_sqp_rti_feedback_step(ocp_nlp_config *config, ocp_nlp_dims *
     }
 
     // save statistics
-    mem->stat[mem->stat_n * nlp_mem->iter+0] = qp_status;
-    mem->stat[mem->stat_n * nlp_mem->iter+1] = qp_iter;
+    rti_store_qp_info_in_stats(mem, qp_status, qp_iter);
 
     if ((qp_status!=ACADOS_SUCCESS) & (qp_status!=ACADOS_MAXITER))
     {
@@ -875,8 +886,7 @@ static void ocp_nlp_sqp_rti_preparation_advanced_step(ocp_nlp_config *config, oc
         // save statistics
         ocp_qp_out_get(nlp_mem->qp_out, 0, "qp_info", &qp_info_);
         qp_iter = qp_info_->num_iter;
-        mem->stat[mem->stat_n * nlp_mem->iter+0] = qp_status;
-        mem->stat[mem->stat_n * nlp_mem->iter+1] = qp_iter;
+        rti_store_qp_info_in_stats(mem, qp_status, qp_iter);
 
         if (nlp_opts->print_level > 3)
         {
@@ -929,8 +939,7 @@ static void ocp_nlp_sqp_rti_preparation_advanced_step(ocp_nlp_config *config, oc
             qp_iter = qp_info_->num_iter;
 
             // save statistics
-            mem->stat[mem->stat_n * nlp_mem->iter+0] = qp_status;
-            mem->stat[mem->stat_n * nlp_mem->iter+1] = qp_iter;
+            rti_store_qp_info_in_stats(mem, qp_status, qp_iter);
 
             // compute correct dual solution in case of Hessian regularization
             acados_tic(&timer1);
@@ -999,8 +1008,7 @@ static void ocp_nlp_sqp_rti_preparation_advanced_step(ocp_nlp_config *config, oc
             qp_iter = qp_info_->num_iter;
 
             // save statistics
-            mem->stat[mem->stat_n * nlp_mem->iter+0] = qp_status;
-            mem->stat[mem->stat_n * nlp_mem->iter+1] = qp_iter;
+            rti_store_qp_info_in_stats(mem, qp_status, qp_iter);
             if ((qp_status!=ACADOS_SUCCESS) & (qp_status!=ACADOS_MAXITER))
             {
 #ifndef ACADOS_SILENT
@@ -1071,8 +1079,7 @@ static void ocp_nlp_sqp_rti_preparation_advanced_step(ocp_nlp_config *config, oc
             qp_iter = qp_info_->num_iter;
 
             // save statistics
-            mem->stat[mem->stat_n * nlp_mem->iter+0] = qp_status;
-            mem->stat[mem->stat_n * nlp_mem->iter+1] = qp_iter;
+            rti_store_qp_info_in_stats(mem, qp_status, qp_iter);
 
             if ((qp_status!=ACADOS_SUCCESS) & (qp_status!=ACADOS_MAXITER))
             {
-- 
2.43.0


From 1a9b863bb3a9e3b3550172acbd12ef2aa0f1ab01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:12 +0000
Subject: [PATCH 09/66] fix: reset the statistics table at the start of a
 solver call, do not report values of previous calls

---
 acados/ocp_nlp/ocp_nlp_ddp.c                  | 3 +++
 acados/ocp_nlp/ocp_nlp_sqp.c                  | 3 +++
 acados/ocp_nlp/ocp_nlp_sqp_rti.c              | 3 +++
 acados/ocp_nlp/ocp_nlp_sqp_with_feasible_qp.c | 3 +++
 4 files changed, 12 insertions(+)

diff --git a/acados/ocp_nlp/ocp_nlp_ddp.c b/acados/ocp_nlp/ocp_nlp_ddp.c
index 787261b..aec7a41 100644
--- a/acados/ocp_nlp/ocp_nlp_ddp.c
+++ b/acados/ocp_nlp/ocp_nlp_ddp.c
@@ -609,6 +609,9 @@ int ocp_nlp_ddp(void *config_, void *dims_, void *nlp_in_, void *nlp_out_,
      * main ddp loop
      ************************************************/
     int ddp_iter = 0;
+    // reset statistics, to not report values of previous solver calls
+    for (int i = 0; i < mem->stat_m * mem->stat_n; i++)
+        mem->stat[i] = 0.0;
     double reg_param_memory = 0.0;
     bool infeasible_initial_guess = true;
     // bool evaluate_cost = true;
diff --git a/acados/ocp_nlp/ocp_nlp_sqp.c b/acados/ocp_nlp/ocp_nlp_sqp.c
index c9bf0fc..cd4ac40 100644
--- a/acados/ocp_nlp/ocp_nlp_sqp.c
+++ b/acados/ocp_nlp/ocp_nlp_sqp.c
@@ -532,6 +532,9 @@ int ocp_nlp_sqp(void *config_, void *dims_, void *nlp_in_, void *nlp_out_,
      * main sqp loop
      ************************************************/
     nlp_mem->iter = 0;
+    // reset statistics, to not report values of previous solver calls
+    for (int i = 0; i < mem->stat_m * mem->stat_n; i++)
+        mem->stat[i] = 0.0;
     double prev_levenberg_marquardt = 0.0;
     int globalization_status;
 
diff --git a/acados/ocp_nlp/ocp_nlp_sqp_rti.c b/acados/ocp_nlp/ocp_nlp_sqp_rti.c
index 895f513..d1b4b7b 100644
--- a/acados/ocp_nlp/ocp_nlp_sqp_rti.c
+++ b/acados/ocp_nlp/ocp_nlp_sqp_rti.c
@@ -368,6 +368,9 @@ static void reset_stats_and_sub_timers(ocp_nlp_sqp_rti_memory *mem)
     mem->nlp_mem->nlp_timings->time_qp_xcond = 0.0;
     mem->nlp_mem->nlp_timings->time_glob = 0.0;
     mem->nlp_mem->iter = 0;
+    // reset statistics, to not report values of previous solver calls
+    for (int i = 0; i < mem->stat_m * mem->stat_n; i++)
+        mem->stat[i] = 0.0;
 }
 
 
diff --git a/acados/ocp_nlp/ocp_nlp_sqp_with_feasible_qp.c b/acados/ocp_nlp/ocp_nlp_sqp_with_feasible_qp.c
index f3257b7..371056b 100644
--- a/acados/ocp_nlp/ocp_nlp_sqp_with_feasible_qp.c
+++ b/acados/ocp_nlp/ocp_nlp_sqp_with_feasible_qp.c
@@ -1606,6 +1606,9 @@ int ocp_nlp_sqp_wfqp(void *config_, void *dims_, void *nlp_in_, void *nlp_out_,
      * main sqp loop
      ************************************************/
     nlp_mem->iter = 0;
+    // reset statistics, to not report values of previous solver calls
+    for (int i = 0; i < mem->stat_m * mem->stat_n; i++)
+        mem->stat[i] = 0.0;
     double prev_levenberg_marquardt = 0.0;
     int search_direction_status = 0;
 
-- 
2.43.0


From f6210b1fba1b20ab3c31f4f64f700d2f2e32504c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:57 +0000
Subject: [PATCH 10/66] fix: DDP: do not check convergence with outdated
 residuals at the maximum number of iterations

---
 acados/ocp_nlp/ocp_nlp_ddp.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/acados/ocp_nlp/ocp_nlp_ddp.c b/acados/ocp_nlp/ocp_nlp_ddp.c
index aec7a41..83a5155 100644
--- a/acados/ocp_nlp/ocp_nlp_ddp.c
+++ b/acados/ocp_nlp/ocp_nlp_ddp.c
@@ -458,6 +458,17 @@ static bool check_termination(int ddp_iter, ocp_nlp_res *nlp_res, ocp_nlp_ddp_me
         return true;
     }
 
+    // check for maximum iterations, the residuals are not evaluated in this case
+    if (!nlp_opts->eval_residual_at_max_iter && ddp_iter >= nlp_opts->max_iter)
+    {
+        nlp_mem->status = ACADOS_MAXITER;
+        if (nlp_opts->print_level > 0)
+        {
+            printf("Stopped: Maximum Iterations Reached.\n");
+        }
+        return true;
+    }
+
     // We do not need to check for the complementarity condition since we have an
     // unconstrained OCP, the inequalities only contain the initial state constraint.
     if ((nlp_res->inf_norm_res_eq < nlp_opts->tol_eq) && (nlp_res->inf_norm_res_ineq < nlp_opts->tol_ineq))
-- 
2.43.0


From 6c5fd9042fc03bdde361ab0fb4eea790764c602e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:18:43 +0000
Subject: [PATCH 11/66] fix: batch solver: do not overwrite the status of
 solvers that did not take part in the call

---
 .../acados_template/acados_ocp_batch_solver.py                | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/interfaces/acados_template/acados_template/acados_ocp_batch_solver.py b/interfaces/acados_template/acados_template/acados_ocp_batch_solver.py
index 6a4ea1c..7c22161 100644
--- a/interfaces/acados_template/acados_template/acados_ocp_batch_solver.py
+++ b/interfaces/acados_template/acados_template/acados_ocp_batch_solver.py
@@ -201,7 +201,7 @@ class AcadosOcpBatchSolver():
         getattr(self.__shared_lib, f"{self.__name}_acados_batch_solve")(self.__ocp_solvers_pointer, self.__status_p, n_batch, self.__num_threads_in_batch_solve)
 
         # to be consistent with non-batched solve
-        for s, solver in zip(self.__status, self.ocp_solvers):
+        for s, solver in zip(self.__status[:n_batch], self.ocp_solvers):
             solver._status = s
 
 
@@ -220,7 +220,7 @@ class AcadosOcpBatchSolver():
         getattr(self.__shared_lib, f"{self.__name}_acados_batch_setup_qp_matrices_and_factorize")(self.__ocp_solvers_pointer, self.__status_p, n_batch, self.__num_threads_in_batch_solve)
 
         # to be consistent with non-batched solve
-        for s, solver in zip(self.__status, self.ocp_solvers):
+        for s, solver in zip(self.__status[:n_batch], self.ocp_solvers):
             solver._status = s
 
 
-- 
2.43.0


From 77fa3267fbab1a4813a9ca0e8bc60b1d66701000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:20:17 +0000
Subject: [PATCH 12/66] fix: batch solver: create additional solvers with the
 save_p_global setting of the existing ones

---
 .../acados_template/acados_template/acados_ocp_batch_solver.py   | 1 +
 1 file changed, 1 insertion(+)

diff --git a/interfaces/acados_template/acados_template/acados_ocp_batch_solver.py b/interfaces/acados_template/acados_template/acados_ocp_batch_solver.py
index 7c22161..6e67207 100644
--- a/interfaces/acados_template/acados_template/acados_ocp_batch_solver.py
+++ b/interfaces/acados_template/acados_template/acados_ocp_batch_solver.py
@@ -678,6 +678,7 @@ class AcadosOcpBatchSolver():
                                                     build=False,
                                                     generate=False,
                                                     verbose=self.verbose if n==0 else False,
+                                                    save_p_global=template_solver.save_p_global,
                                                     check_reuse_possible=False
                                                     )
                                         for n in range(n_missing)])
-- 
2.43.0


From 5560d7fa32772bfcfc1c1856edc701779f854060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:19 +0000
Subject: [PATCH 13/66] fix: ERK: compute forward sensitivities if only
 Hessians are requested, do not write beyond adjoint trajectory

---
 acados/sim/sim_erk_integrator.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/acados/sim/sim_erk_integrator.c b/acados/sim/sim_erk_integrator.c
index 82a0688..aff708f 100644
--- a/acados/sim/sim_erk_integrator.c
+++ b/acados/sim/sim_erk_integrator.c
@@ -454,7 +454,7 @@ acados_size_t sim_erk_workspace_calculate_size(void *config_, void *dims_, void
     int nx = dims->nx;
     int nu = dims->nu;
     int nf = opts->num_forw_sens;                  // existing (Sx,Su) cols
-    if (!opts->sens_forw && !opts->sens_forw_p) nf = 0;
+    if (!opts->sens_forw && !opts->sens_forw_p && !opts->sens_hess) nf = 0;
 
     int np   = dims->np;
     int nf_p = opts->sens_forw_p ? np : 0;
@@ -506,7 +506,7 @@ static void *sim_erk_cast_workspace(void *config_, sim_erk_dims *dims, sim_opts
     int nx = dims->nx;
     int nu = dims->nu;
     int nf = opts->num_forw_sens;
-    if (!opts->sens_forw && !opts->sens_forw_p) nf = 0;
+    if (!opts->sens_forw && !opts->sens_forw_p && !opts->sens_hess) nf = 0;
 
     int np   = dims->np;
     int nf_p = opts->sens_forw_p ? np : 0;
@@ -681,7 +681,7 @@ int sim_erk(void *config_, sim_in *in, sim_out *out, void *opts_, void *mem_, vo
     }
 
     int nf = opts->num_forw_sens;
-    if (!opts->sens_forw && !opts->sens_forw_p) nf = 0;
+    if (!opts->sens_forw && !opts->sens_forw_p && !opts->sens_hess) nf = 0;
 
     /* ------------------ parameter-sensitivity (S_p) support ------------------ */
     /* parameter dimension for S_p uses only stagewise np */
@@ -744,7 +744,7 @@ int sim_erk(void *config_, sim_in *in, sim_out *out, void *opts_, void *mem_, vo
     ext_fun_arg_t expl_vde_type_out[3];
     void *expl_vde_out[3];
 
-    if (opts->sens_forw || opts->sens_forw_p)
+    if (opts->sens_forw || opts->sens_forw_p || opts->sens_hess)
     {  // simulation + forward sensitivities
         expl_vde_type_in[0] = COLMAJ;
         expl_vde_in[0] = rhs_forw_in + off_x;   // x: nx
@@ -779,7 +779,7 @@ int sim_erk(void *config_, sim_in *in, sim_out *out, void *opts_, void *mem_, vo
 
     // initialize integrator variables
     for (i = 0; i < nx; i++) forw_traj[off_x + i] = x[i];  // x0
-    if (opts->sens_forw || opts->sens_forw_p)
+    if (opts->sens_forw || opts->sens_forw_p || opts->sens_hess)
     {
         for (i = 0; i < nx * nf; i++) forw_traj[off_Sx + i] = S_forw_in[i];  // sensitivities
     }
@@ -817,7 +817,7 @@ int sim_erk(void *config_, sim_in *in, sim_out *out, void *opts_, void *mem_, vo
             }
 
             acados_tic(&timer_ad);
-            if (opts->sens_forw || opts->sens_forw_p)
+            if (opts->sens_forw || opts->sens_forw_p || opts->sens_hess)
             {  // simulation + forward sensitivities
                 // forward VDE evaluation
                 expl_vde_out[0] = K_traj + s * nX + off_x;   // fun: nx
@@ -875,7 +875,7 @@ int sim_erk(void *config_, sim_in *in, sim_out *out, void *opts_, void *mem_, vo
     // store trajectory
     for (i = 0; i < nx; i++) xn[i] = forw_traj[off_x + i];
     // store forward sensitivities
-    if (opts->sens_forw)
+    if (opts->sens_forw || opts->sens_hess)
     {
         for (i = 0; i < nx * nf; i++) S_forw_out[i] = forw_traj[off_Sx + i];
     }
-- 
2.43.0


From 004fe9565882afa073042e21be8fa5b8d51db561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:12 +0000
Subject: [PATCH 14/66] fix: IRK, GNSF: do not start Newton iterations from
 invalid values of a previous failed call

---
 acados/sim/sim_gnsf.c           |  8 ++++++++
 acados/sim/sim_irk_integrator.c | 12 ++++++++++++
 2 files changed, 20 insertions(+)

diff --git a/acados/sim/sim_gnsf.c b/acados/sim/sim_gnsf.c
index 2d31c70..25b4248 100644
--- a/acados/sim/sim_gnsf.c
+++ b/acados/sim/sim_gnsf.c
@@ -34,6 +34,7 @@
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
+#include <math.h>
 
 // acados
 #include "acados/utils/mem.h"
@@ -2388,6 +2389,13 @@ int sim_gnsf(void *config, sim_in *in, sim_out *out, void *args, void *mem_, voi
         blasfeo_drowpe(nx, ipiv_x, S_forw);
         blasfeo_dcolpe(nx, ipiv_x, S_forw);
 
+        // do not start from invalid values, e.g. if a previous call failed
+        for (int i = 0; i < n_out; i++)
+        {
+            if (!isfinite(mem->phi_guess[i]))
+                mem->phi_guess[i] = 0.0;
+        }
+
         // initialize vv for first step, for further steps initialize with last vv value in step loop
         for (int i = 0; i < num_stages; i++)
             blasfeo_pack_dvec(n_out, mem->phi_guess, 1, &vv_traj[0], i * n_out);
diff --git a/acados/sim/sim_irk_integrator.c b/acados/sim/sim_irk_integrator.c
index 91c1794..d0fbeac 100644
--- a/acados/sim/sim_irk_integrator.c
+++ b/acados/sim/sim_irk_integrator.c
@@ -1416,6 +1416,18 @@ int sim_irk(void *config_, sim_in *in, sim_out *out, void *opts_, void *mem_, vo
     blasfeo_pack_dmat(nx, nx + nu, in->S_forw, nx, S_forw, 0, 0);
     blasfeo_pack_dvec(nx + nu, in->S_adj, 1, lambda, 0); // TODO set to zero u-part ???
 
+    // do not start from invalid values, e.g. if a previous call failed
+    for (int i = 0; i < nx; i++)
+    {
+        if (!isfinite(mem->xdot[i]))
+            mem->xdot[i] = 0.0;
+    }
+    for (int i = 0; i < nz; i++)
+    {
+        if (!isfinite(mem->z[i]))
+            mem->z[i] = 0.0;
+    }
+
     // initialize integration variables
     for (int i = 0; i < ns; ++i)
     {
-- 
2.43.0


From b7455c0f14cb70cc329fed03400c81f5ccc256e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:12 +0000
Subject: [PATCH 15/66] fix: pass sim_method_jac_reuse to integrators created
 from AcadosSim

---
 .../acados_template/c_templates_tera/acados_sim_solver.in.c     | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/interfaces/acados_template/acados_template/c_templates_tera/acados_sim_solver.in.c b/interfaces/acados_template/acados_template/c_templates_tera/acados_sim_solver.in.c
index 3614489..4ce43fe 100644
--- a/interfaces/acados_template/acados_template/c_templates_tera/acados_sim_solver.in.c
+++ b/interfaces/acados_template/acados_template/c_templates_tera/acados_sim_solver.in.c
@@ -349,6 +349,8 @@ int {{ name }}_acados_sim_create({{ name }}_sim_solver_capsule * capsule)
     sim_opts_set({{ name }}_sim_config, {{ name }}_sim_opts, "output_z", &tmp_bool);
     tmp_bool = {{ code_gen_options.sens_forw_p }};
     sim_opts_set({{ name }}_sim_config, {{ name }}_sim_opts, "sens_forw_p", &tmp_bool);
+    tmp_bool = {{ solver_options.sim_method_jac_reuse }};
+    sim_opts_set({{ name }}_sim_config, {{ name }}_sim_opts, "jac_reuse", &tmp_bool);
 
 {% else %} {# num_stages and num_steps of first shooting interval are used #}
     tmp_int = {{ solver_options.sim_method_num_stages[0] }};
-- 
2.43.0


From 4108919dca8c6aa5d4998dfddd10ad4b7e182c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:25 +0000
Subject: [PATCH 16/66] fix: multi-phase default parameters: set the terminal
 stage, do not carry values over from the previous phase

---
 .../acados_template/c_templates_tera/acados_multi_solver.in.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/interfaces/acados_template/acados_template/c_templates_tera/acados_multi_solver.in.c b/interfaces/acados_template/acados_template/c_templates_tera/acados_multi_solver.in.c
index 39e9d60..fbc33d7 100644
--- a/interfaces/acados_template/acados_template/c_templates_tera/acados_multi_solver.in.c
+++ b/interfaces/acados_template/acados_template/c_templates_tera/acados_multi_solver.in.c
@@ -884,6 +884,7 @@ void {{ name }}_acados_create_set_default_parameters({{ name }}_solver_capsule*
     {% if parameter_values_nnz[jj] / phases_dims[jj].np > sparsity_threshold %}
     memcpy(p, p_init_{{ jj }}, NP_{{ jj }}*sizeof(double));
     {%- else %}
+    memset(p, 0, NP_{{ jj }}*sizeof(double));  // values of previous phase
     {%- for item in parameter_values[jj] %}
         {%- if item != 0 %}
     p[{{ loop.index0 }}] = {{ item }};
@@ -894,6 +895,9 @@ void {{ name }}_acados_create_set_default_parameters({{ name }}_solver_capsule*
     for (int i = {{ start_idx[jj] }}; i < {{ end_idx[jj] }}; i++) {
         {{ name }}_acados_update_params(capsule, i, p, NP_{{ jj }});
     }
+    {%- if jj == n_phases - 1 %}
+    {{ name }}_acados_update_params(capsule, {{ end_idx[jj] }}, p, NP_{{ jj }});  // terminal stage
+    {%- endif %}
     {%- endif %}{# if phases_dims[jj].np #}
 {%- endfor %}
     free(p);
-- 
2.43.0


From 924b052140e507f2004ea9a86f003848cc6b64c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:25 +0000
Subject: [PATCH 17/66] fix: Python OCP solver: copy p_global values, restore
 them on reset, read strided param values correctly

---
 .../acados_template/acados_ocp_solver.py              | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/interfaces/acados_template/acados_template/acados_ocp_solver.py b/interfaces/acados_template/acados_template/acados_ocp_solver.py
index 006d00b..ce05a3a 100644
--- a/interfaces/acados_template/acados_template/acados_ocp_solver.py
+++ b/interfaces/acados_template/acados_template/acados_ocp_solver.py
@@ -287,7 +287,7 @@ class AcadosOcpSolver:
         # Store a reference to the OCP formulation instead of re-loading its data from json.
         self.__ocp = ocp
         self.__save_p_global = save_p_global
-        self.__p_global_values = ocp.p_global_values if save_p_global else np.array([])
+        self.__p_global_values = np.array(ocp.p_global_values) if save_p_global else np.array([])
 
         if check_reuse_possible and (not generate or not build):
             # Check if existing code can be reused
@@ -665,6 +665,8 @@ class AcadosOcpSolver:
         if reset_x_to_x0_bar and not self.__has_x0:
             raise ValueError('reset_x_to_x0_bar can only be used if there is an initial state constraint!')
         getattr(self.shared_lib, f"{self.ocp.name}_acados_reset")(self.capsule, reset_qp_solver_mem, reset_numerical_values, reset_solver_options, reset_x_to_x0_bar)
+        if reset_numerical_values and self.__save_p_global:
+            self.__p_global_values = np.array(self.ocp.p_global_values)
 
 
     def set_new_time_steps(self, new_time_steps):
@@ -1235,7 +1237,7 @@ class AcadosOcpSolver:
         if field_ == 'p_global':
             if not self.__save_p_global:
                 raise ValueError(f'The field \'{field_}\' is not stored within the solver by default. Please set the option \'save_p_global=True\' when instantiating the solver.')
-            return self.__p_global_values
+            return self.__p_global_values.copy()
 
         field = field_.encode('utf-8')
 
@@ -2642,7 +2644,8 @@ class AcadosOcpSolver:
         stage = c_int(stage_)
         n_update = c_int(len(param_values_))
 
-        param_data = cast(param_values_.ctypes.data, POINTER(c_double))
+        c_param_values = np.ascontiguousarray(param_values_)
+        param_data = cast(c_param_values.ctypes.data, POINTER(c_double))
         c_idx_values = np.ascontiguousarray(idx_values_, dtype=np.intc)
         idx_data = cast(c_idx_values.ctypes.data, POINTER(c_int))
 
@@ -2672,7 +2675,7 @@ class AcadosOcpSolver:
 
         status = getattr(self.shared_lib, f"{self.ocp.name}_acados_set_p_global_and_precompute_dependencies")(self.capsule, c_data, data_len)
         if self.__save_p_global:
-            self.__p_global_values = data_
+            self.__p_global_values = data_.copy()
 
         return status
 
-- 
2.43.0


From f0987e87b473588335de3ab859bd2bffd05a4903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:42 +0000
Subject: [PATCH 18/66] fix: generated free function leaked arrays of
 sensitivity functions of h

---
 .../acados_template/c_templates_tera/acados_solver.in.c  | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/interfaces/acados_template/acados_template/c_templates_tera/acados_solver.in.c b/interfaces/acados_template/acados_template/c_templates_tera/acados_solver.in.c
index bcc0b35..6f6f0c3 100644
--- a/interfaces/acados_template/acados_template/c_templates_tera/acados_solver.in.c
+++ b/interfaces/acados_template/acados_template/c_templates_tera/acados_solver.in.c
@@ -3890,6 +3890,15 @@ int {{ name }}_acados_free({{ name }}_solver_capsule* capsule)
   {%- if solver_options.hessian_approx == "EXACT" %}
     free(capsule->nl_constr_h_fun_jac_hess);
   {%- endif %}
+  {%- if code_gen_options.with_solution_sens_wrt_params_forw %}
+    free(capsule->nl_constr_h_jac_p_hess_xu_p);
+  {%- endif %}
+  {%- if code_gen_options.with_solution_sens_wrt_params_adj %}
+    free(capsule->nl_constr_h_hess_ux_pdiff_adj_pdiff);
+  {%- endif %}
+  {%- if code_gen_options.with_value_sens_wrt_params %}
+    free(capsule->nl_constr_h_adj_p);
+  {%- endif %}
 
 {%- elif constraints.constr_type == "BGP" and dims.nphi > 0 %}
     for (int i = 0; i < N-1; i++)
-- 
2.43.0


From 22ee42b173d53eff1638f92c8cafe36473febb97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:36 +0000
Subject: [PATCH 19/66] fix: cost evaluation used the factorization of an
 outdated weight matrix W

---
 acados/ocp_nlp/ocp_nlp_cost_ls.c  | 1 +
 acados/ocp_nlp/ocp_nlp_cost_nls.c | 1 +
 2 files changed, 2 insertions(+)

diff --git a/acados/ocp_nlp/ocp_nlp_cost_ls.c b/acados/ocp_nlp/ocp_nlp_cost_ls.c
index e2b5442..32d85e3 100644
--- a/acados/ocp_nlp/ocp_nlp_cost_ls.c
+++ b/acados/ocp_nlp/ocp_nlp_cost_ls.c
@@ -1023,6 +1023,7 @@ void ocp_nlp_cost_ls_compute_fun(void *config_, void *dims_, void *model_, void
     ocp_nlp_cost_ls_workspace *work = work_;
 
     ocp_nlp_cost_ls_cast_workspace(config_, dims, opts_, work_);
+    ocp_nlp_cost_ls_update_W_factorization(config_, dims_, model_, opts_, memory_, work_);
     int nx = dims->nx;
     int nu = dims->nu;
     int nz = dims->nz;
diff --git a/acados/ocp_nlp/ocp_nlp_cost_nls.c b/acados/ocp_nlp/ocp_nlp_cost_nls.c
index 200d0bd..00f3d4b 100644
--- a/acados/ocp_nlp/ocp_nlp_cost_nls.c
+++ b/acados/ocp_nlp/ocp_nlp_cost_nls.c
@@ -1060,6 +1060,7 @@ void ocp_nlp_cost_nls_compute_fun(void *config_, void *dims_, void *model_,
     struct blasfeo_dvec *ux = memory->ux;
 
     ocp_nlp_cost_nls_cast_workspace(config_, dims, opts_, work_);
+    ocp_nlp_cost_nls_update_W_factorization(config_, dims_, model_, opts_, memory_, work_);
 
     int nx = dims->nx;
     int nu = dims->nu;
-- 
2.43.0


From d42ca1f31870b945d7b51e37b4b58b027df20a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:44 +0000
Subject: [PATCH 20/66] fix: measure durations with the monotonic clock instead
 of the adjustable system time

---
 acados/utils/timing.c | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/acados/utils/timing.c b/acados/utils/timing.c
index f3a0ac9..13eefbf 100644
--- a/acados/utils/timing.c
+++ b/acados/utils/timing.c
@@ -29,6 +29,13 @@
  */
 
 
+// clock_gettime() is only declared on request in strict C99 mode
+#if !(defined _WIN32 || defined _WIN64 || defined __APPLE__ || defined _DS1104 || defined __MABX2__)
+#ifndef _POSIX_C_SOURCE
+#define _POSIX_C_SOURCE 199309L
+#endif
+#endif
+
 #include "acados/utils/timing.h"
 
 
@@ -91,14 +98,22 @@ real_t acados_toc(acados_timer* t) { return ds1401_tic_read() - t->time; }
 
 #if (__STDC_VERSION__ >= 199901L) && !(defined __MINGW32__ || defined __MINGW64__) // C99 Mode
 
-/* read current time */
-void acados_tic(acados_timer* t) { gettimeofday(&t->tic, 0); }
+/* read current time; must not be affected by adjustments of the system time */
+static void read_monotonic_clock(struct timeval *t)
+{
+    struct timespec now;
+    clock_gettime(CLOCK_MONOTONIC, &now);
+    t->tv_sec = now.tv_sec;
+    t->tv_usec = now.tv_nsec / 1000;
+}
+
+void acados_tic(acados_timer* t) { read_monotonic_clock(&t->tic); }
 /* return time passed since last call to tic on this timer */
 real_t acados_toc(acados_timer* t)
 {
     struct timeval temp;
 
-    gettimeofday(&t->toc, 0);
+    read_monotonic_clock(&t->toc);
 
     if ((t->toc.tv_usec - t->tic.tv_usec) < 0)
     {
-- 
2.43.0


From c188c44d5080e0a5811c7e02d5803a932f1d217c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:44 +0000
Subject: [PATCH 21/66] fix: AVERAGE timeout heuristic: the first measured
 iteration was averaged with zero

---
 acados/ocp_nlp/ocp_nlp_sqp.c                  | 2 +-
 acados/ocp_nlp/ocp_nlp_sqp_with_feasible_qp.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/acados/ocp_nlp/ocp_nlp_sqp.c b/acados/ocp_nlp/ocp_nlp_sqp.c
index cd4ac40..d0ef53c 100644
--- a/acados/ocp_nlp/ocp_nlp_sqp.c
+++ b/acados/ocp_nlp/ocp_nlp_sqp.c
@@ -625,7 +625,7 @@ int ocp_nlp_sqp(void *config_, void *dims_, void *nlp_in_, void *nlp_out_,
                         mem->timeout_estimated_per_iteration_time = timeout_time_prev_iter > mem->timeout_estimated_per_iteration_time ? timeout_time_prev_iter : mem->timeout_estimated_per_iteration_time;
                         break;
                     case AVERAGE:
-                        if (nlp_mem->iter == 0)
+                        if (nlp_mem->iter == 1)
                         {
                             mem->timeout_estimated_per_iteration_time = timeout_time_prev_iter;
                         }
diff --git a/acados/ocp_nlp/ocp_nlp_sqp_with_feasible_qp.c b/acados/ocp_nlp/ocp_nlp_sqp_with_feasible_qp.c
index 371056b..3a458b0 100644
--- a/acados/ocp_nlp/ocp_nlp_sqp_with_feasible_qp.c
+++ b/acados/ocp_nlp/ocp_nlp_sqp_with_feasible_qp.c
@@ -1700,7 +1700,7 @@ int ocp_nlp_sqp_wfqp(void *config_, void *dims_, void *nlp_in_, void *nlp_out_,
                         mem->timeout_estimated_per_iteration_time = timeout_time_prev_iter > mem->timeout_estimated_per_iteration_time ? timeout_time_prev_iter : mem->timeout_estimated_per_iteration_time;
                         break;
                     case AVERAGE:
-                        if (nlp_mem->iter == 0)
+                        if (nlp_mem->iter == 1)
                         {
                             mem->timeout_estimated_per_iteration_time = timeout_time_prev_iter;
                         }
-- 
2.43.0


From 4fa1efc69d464a64ade69177ddfb6af627438d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:44 +0000
Subject: [PATCH 22/66] fix: SQP_RTI: reset all timings at the start of a call,
 time_sim and time_qpscaling accumulated

---
 acados/ocp_nlp/ocp_nlp_sqp_rti.c | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/acados/ocp_nlp/ocp_nlp_sqp_rti.c b/acados/ocp_nlp/ocp_nlp_sqp_rti.c
index d1b4b7b..b52356f 100644
--- a/acados/ocp_nlp/ocp_nlp_sqp_rti.c
+++ b/acados/ocp_nlp/ocp_nlp_sqp_rti.c
@@ -361,12 +361,7 @@ static void ocp_nlp_sqp_rti_cast_workspace(
 // utility functions
 static void reset_stats_and_sub_timers(ocp_nlp_sqp_rti_memory *mem)
 {
-    mem->nlp_mem->nlp_timings->time_lin = 0.0;
-    mem->nlp_mem->nlp_timings->time_reg = 0.0;
-    mem->nlp_mem->nlp_timings->time_qp_sol = 0.0;
-    mem->nlp_mem->nlp_timings->time_qp_solver_call = 0.0;
-    mem->nlp_mem->nlp_timings->time_qp_xcond = 0.0;
-    mem->nlp_mem->nlp_timings->time_glob = 0.0;
+    ocp_nlp_timings_reset(mem->nlp_mem->nlp_timings);
     mem->nlp_mem->iter = 0;
     // reset statistics, to not report values of previous solver calls
     for (int i = 0; i < mem->stat_m * mem->stat_n; i++)
-- 
2.43.0


From 0c5a0dff3085fc4e3993f82c79d6ab3003a9d9db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:44 +0000
Subject: [PATCH 23/66] fix: IRK: count all external function evaluations in
 time_ad

---
 acados/sim/sim_irk_integrator.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/acados/sim/sim_irk_integrator.c b/acados/sim/sim_irk_integrator.c
index d0fbeac..a0f0290 100644
--- a/acados/sim/sim_irk_integrator.c
+++ b/acados/sim/sim_irk_integrator.c
@@ -1687,8 +1687,10 @@ int sim_irk(void *config_, sim_in *in, sim_out *out, void *opts_, void *mem_, vo
                     t_current = t0 + ss * step + opts->c_vec[ii] * step;
 
                     // eval df/dp
+                    acados_tic(&timer_ad);
                     model->impl_dae_jac_p->evaluate(model->impl_dae_jac_p, impl_ode_type_in, impl_ode_in,
                                                     impl_dae_jac_p_type_out, impl_dae_jac_p_out);
+                    timing_ad += acados_toc(&timer_ad);
 
                     // dK_dp += df/dp
                     blasfeo_dgead(nx + nz, dims->np, 1.0, df_dp, 0, 0, dK_dp, ii * (nx + nz), 0);
@@ -1748,8 +1750,10 @@ int sim_irk(void *config_, sim_in *in, sim_out *out, void *opts_, void *mem_, vo
                         blasfeo_dgead(nx, nx+nu, -a, dK_dxu_ss, jj*nx, 0, S_forw_stage, 0, 0);
                     }
 
+                    acados_tic(&timer_ad);
                     model->nls_y_fun_jac->evaluate(model->nls_y_fun_jac, nls_y_fun_jac_type_in, nls_y_fun_jac_in,
                                         nls_y_fun_jac_type_out, nls_y_fun_jac_out);
+                    timing_ad += acados_toc(&timer_ad);
 
                     // nls_res = nls_res - y_ref
                     blasfeo_daxpy(ny, -1.0, mem->y_ref, 0, nls_res, 0, nls_res, 0);
@@ -1856,8 +1860,10 @@ int sim_irk(void *config_, sim_in *in, sim_out *out, void *opts_, void *mem_, vo
                     }
 
                     // evaluate external function
+                    acados_tic(&timer_ad);
                     model->conl_cost_fun_jac_hess->evaluate(model->conl_cost_fun_jac_hess, conl_fun_jac_hess_type_in,
                                                 conl_fun_jac_hess_in, conl_fun_jac_hess_type_out, conl_fun_jac_hess_out);
+                    timing_ad += acados_toc(&timer_ad);
 
                     // factorize hessian of outer loss function
                     if (*mem->outer_hess_is_diag)
@@ -1974,8 +1980,10 @@ int sim_irk(void *config_, sim_in *in, sim_out *out, void *opts_, void *mem_, vo
                     blasfeo_daxpy(nx, a, K, jj * nx, xt, 0, xt, 0);
                 }
 
+                acados_tic(&timer_ad);
                 model->nls_y_fun->evaluate(model->nls_y_fun, nls_y_fun_type_in,
                                 nls_y_fun_in, nls_y_fun_type_out, nls_y_fun_out);
+                timing_ad += acados_toc(&timer_ad);
 
                 // nls_res = nls_res - y_ref
                 blasfeo_daxpy(ny, -1.0, mem->y_ref, 0, nls_res, 0, nls_res, 0);
@@ -2034,8 +2042,10 @@ int sim_irk(void *config_, sim_in *in, sim_out *out, void *opts_, void *mem_, vo
                     blasfeo_daxpy(nx, a, K, jj * nx, xt, 0, xt, 0);
                 }
 
+                acados_tic(&timer_ad);
                 model->conl_cost_fun->evaluate(model->conl_cost_fun, ext_fun_type_in, ext_fun_in,
                                    ext_fun_type_out, ext_fun_out);
+                timing_ad += acados_toc(&timer_ad);
 
                 // cost function value
                 // NOTE: slack contribution and scaling done in cost module
-- 
2.43.0


From 0e7c66c14c9255ef8edbd422ed4c728970a9a213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:44 +0000
Subject: [PATCH 24/66] fix: GNSF detection: self check with random points
 failed spuriously due to round-off

---
 interfaces/acados_template/acados_template/gnsf.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/interfaces/acados_template/acados_template/gnsf.py b/interfaces/acados_template/acados_template/gnsf.py
index 9eda0b2..7d5b09c 100644
--- a/interfaces/acados_template/acados_template/gnsf.py
+++ b/interfaces/acados_template/acados_template/gnsf.py
@@ -587,7 +587,7 @@ def check_reformulation(model, gnsf, print_info):
     # if for all points the relative error is <= TOL, the function will return::
     # 1, otherwise it will give an error.
 
-    TOL = 1e-14
+    TOL = 1e-12
     num_eval = 10
 
     # get dimensions
@@ -688,7 +688,8 @@ def check_reformulation(model, gnsf, print_info):
         else:
             gnsf_val = gnsf_val1.full()
         # compute error and check
-        rel_error = np.linalg.norm(f_impl_val - gnsf_val) / np.linalg.norm(f_impl_val)
+        # relative error, robust if the value of the model function is close to zero at the random point
+        rel_error = np.linalg.norm(f_impl_val - gnsf_val) / max(1.0, np.linalg.norm(f_impl_val))
 
         if rel_error > TOL:
             print("transcription failed rel_error > TOL")
-- 
2.43.0


From 435978415d59c71855967e711267f7563a974fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:06 +0000
Subject: [PATCH 25/66] fix: data races in ocp_qp_out_axpy, ocp_qp_out_ddot and
 related stage-parallel loops

---
 acados/ocp_qp/ocp_qp_common.c | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/acados/ocp_qp/ocp_qp_common.c b/acados/ocp_qp/ocp_qp_common.c
index 2a39fa7..cf8e824 100644
--- a/acados/ocp_qp/ocp_qp_common.c
+++ b/acados/ocp_qp/ocp_qp_common.c
@@ -342,14 +342,13 @@ void ocp_qp_out_axpy(double alpha, ocp_qp_out* x, ocp_qp_out* y, ocp_qp_out* z)
     int *nx = dims->nx;
     int *nu = dims->nu;
     int *ns = dims->ns;
-    int ni_stage;
 
 #if defined(ACADOS_WITH_OPENMP)
     #pragma omp parallel for
 #endif
     for (int i = 0; i <= N; i++)
     {
-        ni_stage = ocp_qp_dims_get_ni(dims, i);
+        int ni_stage = ocp_qp_dims_get_ni(dims, i);
         blasfeo_daxpy(nx[i]+nu[i]+2*ns[i], alpha, x->ux+i, 0, y->ux+i, 0, z->ux+i, 0);
         blasfeo_daxpy(2*ni_stage, alpha, x->lam+i, 0, y->lam+i, 0, z->lam+i, 0);
         if (i < N)
@@ -374,9 +373,7 @@ double ocp_qp_out_ddot(ocp_qp_out *x, ocp_qp_out *y, struct blasfeo_dvec *work_t
     int tmp_nbg;
     double out = 0.0;
 
-#if defined(ACADOS_WITH_OPENMP)
-    #pragma omp parallel for
-#endif
+    // NOTE: sequential, all stages share the accumulator and work_tmp_2ni.
     for (int i = 0; i <= N; i++)
     {
         // primal
@@ -427,14 +424,13 @@ void ocp_qp_out_set_to_zero(ocp_qp_out* x)
     int *nx = dims->nx;
     int *nu = dims->nu;
     int *ns = dims->ns;
-    int ni_stage;
 
 #if defined(ACADOS_WITH_OPENMP)
     #pragma omp parallel for
 #endif
     for (int i = 0; i <= N; i++)
     {
-        ni_stage = ocp_qp_dims_get_ni(dims, i);
+        int ni_stage = ocp_qp_dims_get_ni(dims, i);
         blasfeo_dvecse(nx[i]+nu[i]+2*ns[i], 0.0, x->ux+i, 0);
         blasfeo_dvecse(2*ni_stage, 0.0, x->lam+i, 0);
         if (i < N)
@@ -453,14 +449,13 @@ void ocp_qp_out_sc(double alpha, ocp_qp_out* x)
     int *nx = dims->nx;
     int *nu = dims->nu;
     int *ns = dims->ns;
-    int ni_stage;
 
 #if defined(ACADOS_WITH_OPENMP)
     #pragma omp parallel for
 #endif
     for (int i = 0; i <= N; i++)
     {
-        ni_stage = ocp_qp_dims_get_ni(dims, i);
+        int ni_stage = ocp_qp_dims_get_ni(dims, i);
         blasfeo_dvecsc(nx[i]+nu[i]+2*ns[i], alpha, x->ux+i, 0);
         blasfeo_dvecsc(2*ni_stage, alpha, x->lam+i, 0);
         if (i < N)
@@ -480,14 +475,13 @@ void ocp_qp_out_add(double alpha, ocp_qp_out* x, ocp_qp_out* y)
     int *nx = dims->nx;
     int *nu = dims->nu;
     int *ns = dims->ns;
-    int ni_stage;
 
 #if defined(ACADOS_WITH_OPENMP)
     #pragma omp parallel for
 #endif
     for (int i = 0; i <= N; i++)
     {
-        ni_stage = ocp_qp_dims_get_ni(dims, i);
+        int ni_stage = ocp_qp_dims_get_ni(dims, i);
         blasfeo_dvecad(nx[i]+nu[i]+2*ns[i], alpha, x->ux+i, 0, y->ux+i, 0);
         blasfeo_dvecad(2*ni_stage, alpha, x->lam+i, 0, y->lam+i, 0);
         if (i < N)
-- 
2.43.0


From 4a45217ac1e63ccfe47f7c552d44b52b484489f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:06 +0000
Subject: [PATCH 26/66] fix: convexify: use current gradient in dual correction
 if lhs and rhs are regularized separately

---
 acados/ocp_nlp/ocp_nlp_reg_convexify.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/acados/ocp_nlp/ocp_nlp_reg_convexify.c b/acados/ocp_nlp/ocp_nlp_reg_convexify.c
index fd9a27e..3220ad6 100644
--- a/acados/ocp_nlp/ocp_nlp_reg_convexify.c
+++ b/acados/ocp_nlp/ocp_nlp_reg_convexify.c
@@ -756,6 +756,8 @@ void ocp_nlp_reg_convexify_regularize_rhs(void *config, ocp_nlp_reg_dims *dims,
     // start from original qp and do it all from scratch
     for (ii = 0; ii<=N; ii++)
     {
+        // the original gradient is needed in correct_dual_sol
+        blasfeo_drowin(nu[ii]+nx[ii], 1.0, mem->rq[ii], 0, &mem->original_RSQrq[ii], nu[ii]+nx[ii], 0);
         blasfeo_dgecp(nu[ii]+nx[ii]+1, nu[ii]+nx[ii], &mem->original_RSQrq[ii], 0, 0, mem->RSQrq[ii], 0, 0);
     }
 
-- 
2.43.0


From 84c11ab399ba0045d7777e048c5e26be343f9092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:06 +0000
Subject: [PATCH 27/66] fix: reset QP solver memory in generated reset also for
 FULL_CONDENSING_HPIPM

---
 acados/dense_qp/dense_qp_hpipm.c                            | 6 ++++++
 acados/dense_qp/dense_qp_hpipm.h                            | 1 +
 .../c_templates_tera/acados_multi_solver.in.c               | 2 +-
 .../acados_template/c_templates_tera/acados_solver.in.c     | 2 +-
 4 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/acados/dense_qp/dense_qp_hpipm.c b/acados/dense_qp/dense_qp_hpipm.c
index 0e4417f..cc0e69e 100644
--- a/acados/dense_qp/dense_qp_hpipm.c
+++ b/acados/dense_qp/dense_qp_hpipm.c
@@ -259,6 +259,11 @@ void dense_qp_hpipm_memory_get(void *config_, void *mem_, const char *field, voi
         int *tmp_ptr = value;
         *tmp_ptr = mem->iter;
     }
+    else if (!strcmp(field, "status"))
+    {
+        int *tmp_ptr = value;
+        *tmp_ptr = mem->status;
+    }
     else
     {
         printf("\nerror: dense_qp_hpipm_memory_get: field %s not available\n", field);
@@ -330,6 +335,7 @@ int dense_qp_hpipm(void *config, void *qp_in_, void *qp_out_, void *opts_, void
 
     mem->time_qp_solver_call = info->solve_QP_time;
     mem->iter = mem->hpipm_workspace->iter;
+    mem->status = hpipm_status;
 
 #ifndef BLASFEO_EXT_DEP_OFF
     // print HPIPM statistics:
diff --git a/acados/dense_qp/dense_qp_hpipm.h b/acados/dense_qp/dense_qp_hpipm.h
index 9f45440..e8bcd87 100644
--- a/acados/dense_qp/dense_qp_hpipm.h
+++ b/acados/dense_qp/dense_qp_hpipm.h
@@ -60,6 +60,7 @@ typedef struct dense_qp_hpipm_memory_
     struct d_dense_qp_ipm_ws *hpipm_workspace;
     double time_qp_solver_call;
     int iter;
+    int status;
 
 } dense_qp_hpipm_memory;
 
diff --git a/interfaces/acados_template/acados_template/c_templates_tera/acados_multi_solver.in.c b/interfaces/acados_template/acados_template/c_templates_tera/acados_multi_solver.in.c
index fbc33d7..b0241cf 100644
--- a/interfaces/acados_template/acados_template/c_templates_tera/acados_multi_solver.in.c
+++ b/interfaces/acados_template/acados_template/c_templates_tera/acados_multi_solver.in.c
@@ -2942,7 +2942,7 @@ int {{ name }}_acados_reset({{ name }}_solver_capsule* capsule, int reset_qp_sol
     // reset integrator memory
     ocp_nlp_solver_reset_integrator_memory(nlp_solver, nlp_in, nlp_out);
 
-{%- if solver_options.qp_solver == 'PARTIAL_CONDENSING_HPIPM' %}
+{%- if solver_options.qp_solver == 'PARTIAL_CONDENSING_HPIPM' or solver_options.qp_solver == 'FULL_CONDENSING_HPIPM' %}
     // get qp_status: if NaN -> reset memory
     int qp_status;
     ocp_nlp_get(capsule->nlp_solver, "qp_status", &qp_status);
diff --git a/interfaces/acados_template/acados_template/c_templates_tera/acados_solver.in.c b/interfaces/acados_template/acados_template/c_templates_tera/acados_solver.in.c
index 6f6f0c3..aa6f999 100644
--- a/interfaces/acados_template/acados_template/c_templates_tera/acados_solver.in.c
+++ b/interfaces/acados_template/acados_template/c_templates_tera/acados_solver.in.c
@@ -3103,7 +3103,7 @@ int {{ name }}_acados_reset({{ name }}_solver_capsule* capsule, int reset_qp_sol
     // reset integrator memory
     ocp_nlp_solver_reset_integrator_memory(nlp_solver, nlp_in, nlp_out);
 
-    {%- if solver_options.qp_solver == 'PARTIAL_CONDENSING_HPIPM' %}
+    {%- if solver_options.qp_solver == 'PARTIAL_CONDENSING_HPIPM' or solver_options.qp_solver == 'FULL_CONDENSING_HPIPM' %}
     // get qp_status: if NaN -> reset memory
     int qp_status;
     ocp_nlp_get(capsule->nlp_solver, "qp_status", &qp_status);
-- 
2.43.0


From b385b5e9db4508d9d87539c06583c9389160f723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:06 +0000
Subject: [PATCH 28/66] fix: IRK: NONLINEAR_LS cost integration with
 non-diagonal weight

---
 acados/sim/sim_irk_integrator.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/acados/sim/sim_irk_integrator.c b/acados/sim/sim_irk_integrator.c
index a0f0290..bdf4a56 100644
--- a/acados/sim/sim_irk_integrator.c
+++ b/acados/sim/sim_irk_integrator.c
@@ -1789,8 +1789,8 @@ int sim_irk(void *config_, sim_in *in, sim_out *out, void *opts_, void *mem_, vo
                         blasfeo_dtrmm_rlnn(nu+nx, ny, 1.0, mem->W_chol, 0, 0, tmp_nux_ny, 0, 0,
                                         tmp_nux_ny2, 0, 0);
 
-                        // tmp_ny = W_chol * nls_res
-                        blasfeo_dtrmv_lnn(ny, mem->W_chol, 0, 0, nls_res, 0, tmp_ny, 0);
+                        // tmp_ny = W_chol^T * nls_res
+                        blasfeo_dtrmv_ltn(ny, mem->W_chol, 0, 0, nls_res, 0, tmp_ny, 0);
                     }
 
                     // cost_grad += b * tmp_ny^T * tmp_ny_nux = b * tmp_ny_nux^T * tmp_ny
@@ -1994,8 +1994,8 @@ int sim_irk(void *config_, sim_in *in, sim_out *out, void *opts_, void *mem_, vo
                     blasfeo_dvecmul(ny, mem->W_chol_diag, 0, nls_res, 0, tmp_ny, 0);
                 }
                 else {
-                    // tmp_ny = W_chol * nls_res
-                    blasfeo_dtrmv_lnn(ny, mem->W_chol, 0, 0, nls_res, 0, tmp_ny, 0);
+                    // tmp_ny = W_chol^T * nls_res
+                    blasfeo_dtrmv_ltn(ny, mem->W_chol, 0, 0, nls_res, 0, tmp_ny, 0);
                 }
 
                 // cost function value
-- 
2.43.0


From f4f3ae713cb8997aa86abee5fcbf984d4656eb5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:06 +0000
Subject: [PATCH 29/66] fix: use current weight factorization when evaluating
 integrated cost

---
 acados/ocp_nlp/ocp_nlp_common.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/acados/ocp_nlp/ocp_nlp_common.c b/acados/ocp_nlp/ocp_nlp_common.c
index f216995..65acabe 100644
--- a/acados/ocp_nlp/ocp_nlp_common.c
+++ b/acados/ocp_nlp/ocp_nlp_common.c
@@ -3878,6 +3878,10 @@ void ocp_nlp_cost_compute(ocp_nlp_config *config, ocp_nlp_dims *dims, ocp_nlp_in
 
             if (cost_integration)
             {
+                // NOTE: the integrator uses the factorization of the weight matrix in the cost module,
+                // which is updated in compute_fun. The value is evaluated below.
+                config->cost[i]->compute_fun(config->cost[i], dims->cost[i], in->cost[i],
+                        opts->cost[i], mem->cost[i], work->cost[i]);
                 config->dynamics[i]->compute_fun(config->dynamics[i], dims->dynamics[i],
                         in->dynamics[i], opts->dynamics[i], mem->dynamics[i], work->dynamics[i]);
             }
-- 
2.43.0


From e27d9d87d77ccabaef3d0eb94c7530437e91219f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:36 +0000
Subject: [PATCH 30/66] fix: SQP_RTI: preparation phase returned the status of
 a previous call

---
 acados/ocp_nlp/ocp_nlp_sqp_rti.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/acados/ocp_nlp/ocp_nlp_sqp_rti.c b/acados/ocp_nlp/ocp_nlp_sqp_rti.c
index b52356f..94d305b 100644
--- a/acados/ocp_nlp/ocp_nlp_sqp_rti.c
+++ b/acados/ocp_nlp/ocp_nlp_sqp_rti.c
@@ -480,6 +480,8 @@ static void ocp_nlp_sqp_rti_preparation_step(ocp_nlp_config *config, ocp_nlp_dim
     ocp_nlp_timings *timings = nlp_mem->nlp_timings;
 
     reset_stats_and_sub_timers(mem);
+    // NOTE: do not report the status of a previous call.
+    nlp_mem->status = ACADOS_SUCCESS;
 
     // if print level > 2 set print level in the qp solver to 1
     int tmp_int;
@@ -816,6 +818,8 @@ static void ocp_nlp_sqp_rti_preparation_advanced_step(ocp_nlp_config *config, oc
     ocp_nlp_out *tmp_nlp_out = nlp_work->tmp_nlp_out;
 
     reset_stats_and_sub_timers(mem);
+    // NOTE: do not report the status of a previous call.
+    nlp_mem->status = ACADOS_SUCCESS;
 
     // if print level > 2 set print level in the qp solver to 1
     int tmp_int;
-- 
2.43.0


From 8e8c237835bb8916da16cb9b6769c499728f311a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:36 +0000
Subject: [PATCH 31/66] fix: AS-RTI level A: report QP failure in the
 preparation phase

---
 acados/ocp_nlp/ocp_nlp_sqp_rti.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/acados/ocp_nlp/ocp_nlp_sqp_rti.c b/acados/ocp_nlp/ocp_nlp_sqp_rti.c
index 94d305b..a48fb84 100644
--- a/acados/ocp_nlp/ocp_nlp_sqp_rti.c
+++ b/acados/ocp_nlp/ocp_nlp_sqp_rti.c
@@ -890,6 +890,16 @@ static void ocp_nlp_sqp_rti_preparation_advanced_step(ocp_nlp_config *config, oc
         qp_iter = qp_info_->num_iter;
         rti_store_qp_info_in_stats(mem, qp_status, qp_iter);
 
+        if ((qp_status!=ACADOS_SUCCESS) & (qp_status!=ACADOS_MAXITER))
+        {
+#ifndef ACADOS_SILENT
+            printf("\nSQP_RTI: QP solver returned error status %d (%s) QP iteration %d.\n",
+                qp_status, status_to_string(qp_status), qp_iter);
+#endif
+            nlp_mem->status = ACADOS_QP_FAILURE;
+            return;
+        }
+
         if (nlp_opts->print_level > 3)
         {
             printf("\n------- qp_in AS-RTI-A preparation --------\n");
-- 
2.43.0


From f110a6ca8e11bf7e40b5b8fb6f80edc3553eab2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:36 +0000
Subject: [PATCH 32/66] fix: restore the OpenMP thread count after a solver
 call

---
 acados/ocp_nlp/ocp_nlp_ddp.c                  | 10 +++++++-
 acados/ocp_nlp/ocp_nlp_sqp.c                  |  2 +-
 acados/ocp_nlp/ocp_nlp_sqp_rti.c              | 23 +++++++++----------
 acados/ocp_nlp/ocp_nlp_sqp_with_feasible_qp.c |  2 +-
 .../c_templates_tera/acados_sim_solver.in.c   |  2 +-
 .../c_templates_tera/acados_solver.in.c       | 22 +++++++++---------
 6 files changed, 34 insertions(+), 27 deletions(-)

diff --git a/acados/ocp_nlp/ocp_nlp_ddp.c b/acados/ocp_nlp/ocp_nlp_ddp.c
index 83a5155..2af1dc7 100644
--- a/acados/ocp_nlp/ocp_nlp_ddp.c
+++ b/acados/ocp_nlp/ocp_nlp_ddp.c
@@ -608,7 +608,7 @@ int ocp_nlp_ddp(void *config_, void *dims_, void *nlp_in_, void *nlp_out_,
 
 #if defined(ACADOS_WITH_OPENMP)
     // backup number of threads
-    int num_threads_bkp = omp_get_num_threads();
+    int num_threads_bkp = omp_get_max_threads();
     // set number of threads
     // approximate_qp_matrices is parallelized
     omp_set_num_threads(opts->nlp_opts->num_threads);
@@ -831,6 +831,10 @@ int ocp_nlp_ddp(void *config_, void *dims_, void *nlp_in_, void *nlp_out_,
                     printf("\nFailure in globalization, got status %d (%s)!\n", globalization_status, status_to_string(globalization_status));
                 }
                 mem->nlp_mem->status = ACADOS_QP_FAILURE;
+#if defined(ACADOS_WITH_OPENMP)
+                // restore number of threads
+                omp_set_num_threads(num_threads_bkp);
+#endif
                 nlp_mem->iter = ddp_iter;
                 nlp_timings->time_tot = acados_toc(&timer0);
                 return mem->nlp_mem->status;
@@ -842,6 +846,10 @@ int ocp_nlp_ddp(void *config_, void *dims_, void *nlp_in_, void *nlp_out_,
     {
         printf("Warning: The solver should never reach this part of the function!\n");
     }
+#if defined(ACADOS_WITH_OPENMP)
+    // restore number of threads
+    omp_set_num_threads(num_threads_bkp);
+#endif
     return mem->nlp_mem->status;
 }
 
diff --git a/acados/ocp_nlp/ocp_nlp_sqp.c b/acados/ocp_nlp/ocp_nlp_sqp.c
index d0ef53c..b8f9e74 100644
--- a/acados/ocp_nlp/ocp_nlp_sqp.c
+++ b/acados/ocp_nlp/ocp_nlp_sqp.c
@@ -521,7 +521,7 @@ int ocp_nlp_sqp(void *config_, void *dims_, void *nlp_in_, void *nlp_out_,
 
 #if defined(ACADOS_WITH_OPENMP)
     // backup number of threads
-    int num_threads_bkp = omp_get_num_threads();
+    int num_threads_bkp = omp_get_max_threads();
     // set number of threads
     omp_set_num_threads(opts->nlp_opts->num_threads);
 #endif
diff --git a/acados/ocp_nlp/ocp_nlp_sqp_rti.c b/acados/ocp_nlp/ocp_nlp_sqp_rti.c
index a48fb84..32aba5f 100644
--- a/acados/ocp_nlp/ocp_nlp_sqp_rti.c
+++ b/acados/ocp_nlp/ocp_nlp_sqp_rti.c
@@ -493,7 +493,7 @@ static void ocp_nlp_sqp_rti_preparation_step(ocp_nlp_config *config, ocp_nlp_dim
 
 #if defined(ACADOS_WITH_OPENMP)
     // backup number of threads
-    int num_threads_bkp = omp_get_num_threads();
+    int num_threads_bkp = omp_get_max_threads();
     // set number of threads
     omp_set_num_threads(opts->nlp_opts->num_threads);
 #endif
@@ -829,13 +829,6 @@ static void ocp_nlp_sqp_rti_preparation_advanced_step(ocp_nlp_config *config, oc
         tmp_int = 0;
     qp_solver->opts_set(qp_solver, nlp_opts->qp_solver_opts, "print_level", &tmp_int);
 
-#if defined(ACADOS_WITH_OPENMP)
-    // backup number of threads
-    int num_threads_bkp = omp_get_num_threads();
-    // set number of threads
-    omp_set_num_threads(opts->nlp_opts->num_threads);
-#endif
-
     qp_info *qp_info_;
     int qp_iter, qp_status, globalization_status;
 
@@ -1134,10 +1127,6 @@ static void ocp_nlp_sqp_rti_preparation_advanced_step(ocp_nlp_config *config, oc
     qp_solver->condense_lhs(qp_solver, dims->qp_solver,
         nlp_mem->qp_in, nlp_mem->qp_out, opts->nlp_opts->qp_solver_opts,
         nlp_mem->qp_solver_mem, nlp_work->qp_work);
-#if defined(ACADOS_WITH_OPENMP)
-    // restore number of threads
-    omp_set_num_threads(num_threads_bkp);
-#endif
 
     /* AS-RTI */
     if (opts->as_rti_level == LEVEL_A)
@@ -1191,7 +1180,17 @@ int ocp_nlp_sqp_rti(void *config_, void *dims_, void *nlp_in_, void *nlp_out_,
     }
     else if (rti_phase == PREPARATION)
     {
+#if defined(ACADOS_WITH_OPENMP)
+        // backup number of threads
+        int num_threads_bkp = omp_get_max_threads();
+        // set number of threads
+        omp_set_num_threads(opts->nlp_opts->num_threads);
+#endif
         ocp_nlp_sqp_rti_preparation_advanced_step(config, dims, nlp_in, nlp_out, opts, mem, work);
+#if defined(ACADOS_WITH_OPENMP)
+        // restore number of threads
+        omp_set_num_threads(num_threads_bkp);
+#endif
         timings->time_preparation = acados_toc(&timer);
     }
     else if (rti_phase == PREPARATION_AND_FEEDBACK && opts->as_rti_level != STANDARD_RTI)
diff --git a/acados/ocp_nlp/ocp_nlp_sqp_with_feasible_qp.c b/acados/ocp_nlp/ocp_nlp_sqp_with_feasible_qp.c
index 3a458b0..6828397 100644
--- a/acados/ocp_nlp/ocp_nlp_sqp_with_feasible_qp.c
+++ b/acados/ocp_nlp/ocp_nlp_sqp_with_feasible_qp.c
@@ -1592,7 +1592,7 @@ int ocp_nlp_sqp_wfqp(void *config_, void *dims_, void *nlp_in_, void *nlp_out_,
 
 #if defined(ACADOS_WITH_OPENMP)
     // backup number of threads
-    int num_threads_bkp = omp_get_num_threads();
+    int num_threads_bkp = omp_get_max_threads();
     // set number of threads
     omp_set_num_threads(opts->nlp_opts->num_threads);
 #endif
diff --git a/interfaces/acados_template/acados_template/c_templates_tera/acados_sim_solver.in.c b/interfaces/acados_template/acados_template/c_templates_tera/acados_sim_solver.in.c
index 4ce43fe..4bf5705 100644
--- a/interfaces/acados_template/acados_template/c_templates_tera/acados_sim_solver.in.c
+++ b/interfaces/acados_template/acados_template/c_templates_tera/acados_sim_solver.in.c
@@ -495,7 +495,7 @@ void {{ name }}_acados_sim_batch_solve({{ name }}_sim_solver_capsule ** capsules
 {
     int num_threads_bkp;
     if (num_threads_in_batch_solve > 1){
-        num_threads_bkp = omp_get_num_threads();
+        num_threads_bkp = omp_get_max_threads();
         omp_set_num_threads(num_threads_in_batch_solve);
     }
 
diff --git a/interfaces/acados_template/acados_template/c_templates_tera/acados_solver.in.c b/interfaces/acados_template/acados_template/c_templates_tera/acados_solver.in.c
index aa6f999..db04390 100644
--- a/interfaces/acados_template/acados_template/c_templates_tera/acados_solver.in.c
+++ b/interfaces/acados_template/acados_template/c_templates_tera/acados_solver.in.c
@@ -3225,7 +3225,7 @@ void {{ name }}_acados_batch_solve({{ name }}_solver_capsule ** capsules, int *
     int num_threads_bkp;
     if (num_threads_in_batch_solve > 1)
     {
-        num_threads_bkp = omp_get_num_threads();
+        num_threads_bkp = omp_get_max_threads();
         omp_set_num_threads(num_threads_in_batch_solve);
     }
 
@@ -3248,7 +3248,7 @@ void {{ name }}_acados_batch_setup_qp_matrices_and_factorize({{ name }}_solver_c
     int num_threads_bkp;
     if (num_threads_in_batch_solve > 1)
     {
-        num_threads_bkp = omp_get_num_threads();
+        num_threads_bkp = omp_get_max_threads();
         omp_set_num_threads(num_threads_in_batch_solve);
     }
 
@@ -3271,7 +3271,7 @@ void {{ name }}_acados_batch_eval_params_jac({{ name }}_solver_capsule ** capsul
     int num_threads_bkp;
     if (num_threads_in_batch_solve > 1)
     {
-        num_threads_bkp = omp_get_num_threads();
+        num_threads_bkp = omp_get_max_threads();
         omp_set_num_threads(num_threads_in_batch_solve);
     }
 
@@ -3294,7 +3294,7 @@ void {{ name }}_acados_batch_eval_param_sens({{ name }}_solver_capsule ** capsul
     int num_threads_bkp;
     if (num_threads_in_batch_solve > 1)
     {
-        num_threads_bkp = omp_get_num_threads();
+        num_threads_bkp = omp_get_max_threads();
         omp_set_num_threads(num_threads_in_batch_solve);
     }
 
@@ -3318,7 +3318,7 @@ void {{ name }}_acados_batch_eval_solution_sens_adj_p({{ name }}_solver_capsule
     int num_threads_bkp;
     if (num_threads_in_batch_solve > 1)
     {
-        num_threads_bkp = omp_get_num_threads();
+        num_threads_bkp = omp_get_max_threads();
         omp_set_num_threads(num_threads_in_batch_solve);
     }
 
@@ -3349,7 +3349,7 @@ void {{ name }}_acados_batch_set_flat({{ name }}_solver_capsule ** capsules, con
     int num_threads_bkp;
     if (num_threads_in_batch_solve > 1)
     {
-        num_threads_bkp = omp_get_num_threads();
+        num_threads_bkp = omp_get_max_threads();
         omp_set_num_threads(num_threads_in_batch_solve);
     }
 
@@ -3380,7 +3380,7 @@ void {{ name }}_acados_batch_get_flat({{ name }}_solver_capsule ** capsules, con
     int num_threads_bkp;
     if (num_threads_in_batch_solve > 1)
     {
-        num_threads_bkp = omp_get_num_threads();
+        num_threads_bkp = omp_get_max_threads();
         omp_set_num_threads(num_threads_in_batch_solve);
     }
 
@@ -3403,7 +3403,7 @@ void {{ name }}_acados_batch_reset_sens_out({{ name }}_solver_capsule ** capsule
     int num_threads_bkp;
     if (num_threads_in_batch_solve > 1)
     {
-        num_threads_bkp = omp_get_num_threads();
+        num_threads_bkp = omp_get_max_threads();
         omp_set_num_threads(num_threads_in_batch_solve);
     }
 
@@ -3442,7 +3442,7 @@ void {{ name }}_acados_batch_set({{ name }}_solver_capsule ** capsules, const ch
     int num_threads_bkp;
     if (num_threads_in_batch_solve > 1)
     {
-        num_threads_bkp = omp_get_num_threads();
+        num_threads_bkp = omp_get_max_threads();
         omp_set_num_threads(num_threads_in_batch_solve);
     }
 
@@ -3560,7 +3560,7 @@ void {{ name }}_acados_batch_get({{ name }}_solver_capsule ** capsules, const ch
     int num_threads_bkp;
     if (num_threads_in_batch_solve > 1)
     {
-        num_threads_bkp = omp_get_num_threads();
+        num_threads_bkp = omp_get_max_threads();
         omp_set_num_threads(num_threads_in_batch_solve);
     }
 
@@ -3613,7 +3613,7 @@ void {{ name }}_acados_batch_constraints_set({{ name }}_solver_capsule ** capsul
     int num_threads_bkp;
     if (num_threads_in_batch_solve > 1)
     {
-        num_threads_bkp = omp_get_num_threads();
+        num_threads_bkp = omp_get_max_threads();
         omp_set_num_threads(num_threads_in_batch_solve);
     }
 
-- 
2.43.0


From 16a3d1f5d89503a452a197445534067cc29317ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:17 +0000
Subject: [PATCH 33/66] fix: setting the time step of a stage also updates the
 integrator of that stage

---
 interfaces/acados_c/ocp_nlp_interface.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/interfaces/acados_c/ocp_nlp_interface.c b/interfaces/acados_c/ocp_nlp_interface.c
index f342da0..bc2e97c 100644
--- a/interfaces/acados_c/ocp_nlp_interface.c
+++ b/interfaces/acados_c/ocp_nlp_interface.c
@@ -440,6 +440,8 @@ void ocp_nlp_in_set(ocp_nlp_config *config, ocp_nlp_dims *dims, ocp_nlp_in *in,
     {
         double *Ts_value = value;
         in->Ts[stage] = Ts_value[0];
+        config->dynamics[stage]->model_set(config->dynamics[stage], dims->dynamics[stage],
+                                           in->dynamics[stage], "T", Ts_value);
     }
     else if (!strcmp(field, "parameter_values"))
     {
-- 
2.43.0


From bbf192776e0414cbd4c33c67d3ed97a2fda5bd78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:17 +0000
Subject: [PATCH 34/66] fix: GNSF: redo the precomputation if the step size
 changed

---
 acados/sim/sim_gnsf.c | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/acados/sim/sim_gnsf.c b/acados/sim/sim_gnsf.c
index 25b4248..a914761 100644
--- a/acados/sim/sim_gnsf.c
+++ b/acados/sim/sim_gnsf.c
@@ -787,6 +787,8 @@ int sim_gnsf_precompute(void *config_, sim_in *in, sim_out *out, void *opts_, vo
     blasfeo_dgese(nK1, nK1, 0.0, &EE1, 0, 0);
     blasfeo_dgese(nZ1, nZ1, 0.0, &EE2, 0, 0);
     blasfeo_dgese(nyy, nK1, 0.0, &LLK, 0, 0);
+    blasfeo_dgese(nyy, nZ1, 0.0, &LLZ, 0, 0);
+    blasfeo_dgese(nx2, nx2 + nu, 0.0, dx2f_dx2u, 0, 0);
     blasfeo_dgese(nK2, nK2, 0.0, M2_LU, 0, 0);
 
     blasfeo_pack_dmat(nx1, nx1, model->E, nx1 + nz1, &E11, 0, 0);
@@ -2168,6 +2170,18 @@ int sim_gnsf(void *config, sim_in *in, sim_out *out, void *args, void *mem_, voi
     sim_opts *opts = (sim_opts *) args;
     sim_gnsf_dims *dims = (sim_gnsf_dims *) in->dims;
     gnsf_model *model = in->model;
+
+    // the precomputed matrices depend on the step size
+    if (mem->dt != in->T / opts->num_steps)
+    {
+        if (model->fully_linear && !in->identity_seed)
+        {
+            printf("ERROR sim_gnsf: changing the step size of a fully linear model requires an identity seed\n");
+            exit(1);
+        }
+        sim_gnsf_precompute(config, in, out, args, mem_, work_);
+    }
+
     gnsf_workspace *workspace =
         (gnsf_workspace *) sim_gnsf_cast_workspace(config, dims, opts, work_);
 
@@ -2206,13 +2220,6 @@ int sim_gnsf(void *config, sim_in *in, sim_out *out, void *args, void *mem_, voi
 
     int nxz2 = nx2 + nz2;
 
-    // assert - only use supported features
-    if (mem->dt != in->T / opts->num_steps)
-    {
-        printf("ERROR sim_gnsf: mem->dt n!= in->T/opts->num_steps, check initialization\n");
-        exit(1);
-    }
-
     // assign variables from workspace
     struct blasfeo_dmat *J_r_vv =
         &workspace->J_r_vv;  // store the the jacobian of the residual w.r.t. vv
-- 
2.43.0


From 03be1ce993eb447051d81908bd164034863a2c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:17 +0000
Subject: [PATCH 35/66] fix: reset of numerical values keeps the time steps if
 the horizon is not the generated one

---
 .../c_templates_tera/acados_solver.in.c        | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/interfaces/acados_template/acados_template/c_templates_tera/acados_solver.in.c b/interfaces/acados_template/acados_template/c_templates_tera/acados_solver.in.c
index db04390..e8371f0 100644
--- a/interfaces/acados_template/acados_template/c_templates_tera/acados_solver.in.c
+++ b/interfaces/acados_template/acados_template/c_templates_tera/acados_solver.in.c
@@ -3120,7 +3120,23 @@ int {{ name }}_acados_reset({{ name }}_solver_capsule* capsule, int reset_qp_sol
         {{ name }}_acados_create_set_default_parameters(capsule);
 
         // reset numerical values in nlp_in
-        {{ name }}_acados_create_setup_nlp_in_numerical_values(capsule, N, NULL);
+    {%- if solver_options.N_horizon > 0 %}
+        if (N != {{ name | upper }}_N)
+        {
+            // the time steps of the formulation do not apply to this horizon, keep the current ones
+            double* time_steps = malloc(N*sizeof(double));
+            for (int i = 0; i < N; i++)
+            {
+                ocp_nlp_in_get(nlp_config, nlp_dims, nlp_in, i, "Ts", &time_steps[i]);
+            }
+            {{ name }}_acados_create_setup_nlp_in_numerical_values(capsule, N, time_steps);
+            free(time_steps);
+        }
+        else
+    {%- endif %}
+        {
+            {{ name }}_acados_create_setup_nlp_in_numerical_values(capsule, N, NULL);
+        }
     }
 
     if (reset_solver_options)
-- 
2.43.0


From 111459ad10edb195fc9c2308ba2f1b974ef20409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:18 +0000
Subject: [PATCH 36/66] fix: condensing options: keep them on reset, match
 block sizes to the horizon

---
 acados/ocp_qp/ocp_qp_partial_condensing.c     |  3 +
 .../c_templates_tera/acados_solver.in.c       | 60 ++++++++++++-------
 2 files changed, 42 insertions(+), 21 deletions(-)

diff --git a/acados/ocp_qp/ocp_qp_partial_condensing.c b/acados/ocp_qp/ocp_qp_partial_condensing.c
index f468e54..095dcb6 100644
--- a/acados/ocp_qp/ocp_qp_partial_condensing.c
+++ b/acados/ocp_qp/ocp_qp_partial_condensing.c
@@ -290,6 +290,9 @@ void ocp_qp_partial_condensing_opts_set(void *opts_, const char *field, void* va
     if(!strcmp(field, "N"))
     {
         int *tmp_ptr = value;
+        // block sizes are given for a specific N2
+        if (opts->N2 != *tmp_ptr)
+            opts->block_size_was_set = false;
         opts->N2 = *tmp_ptr;
     }
     else if(!strcmp(field, "N_bkp"))
diff --git a/interfaces/acados_template/acados_template/c_templates_tera/acados_solver.in.c b/interfaces/acados_template/acados_template/c_templates_tera/acados_solver.in.c
index e8371f0..c4aefd4 100644
--- a/interfaces/acados_template/acados_template/c_templates_tera/acados_solver.in.c
+++ b/interfaces/acados_template/acados_template/c_templates_tera/acados_solver.in.c
@@ -1055,6 +1055,44 @@ void {{ name }}_acados_create_set_default_parameters({{ name }}_solver_capsule*
 }
 
 
+/**
+ * Internal function for {{ name }}_acados_create: set the options of the partial condensing.
+ * They determine the memory layout of the solver and are thus not changed by {{ name }}_acados_reset.
+ */
+static void {{ name }}_acados_create_set_cond_opts({{ name }}_solver_capsule* capsule)
+{
+{%- if solver_options.qp_solver is starting_with("PARTIAL_CONDENSING") %}
+    const int N = capsule->nlp_solver_plan->N;
+    ocp_nlp_config* nlp_config = capsule->nlp_config;
+    void *nlp_opts = capsule->nlp_opts;
+
+    int qp_solver_cond_N;
+
+    {%- if solver_options.qp_solver_cond_N and solver_options.qp_solver_cond_N != solver_options.N_horizon -%}
+    const int qp_solver_cond_N_ori = {{ solver_options.qp_solver_cond_N }};
+    qp_solver_cond_N = N < qp_solver_cond_N_ori ? N : qp_solver_cond_N_ori; // use the minimum value here
+    {%- else %}
+    // NOTE: there is no condensing happening here!
+    qp_solver_cond_N = N;
+    {%- endif %}
+    ocp_nlp_solver_opts_set(nlp_config, nlp_opts, "qp_cond_N", &qp_solver_cond_N);
+
+    {%- if solver_options.qp_solver_cond_block_size and solver_options.N_horizon > 0 %}
+    // the block sizes only apply to the horizon of the formulation
+    if (N == {{ name | upper }}_N)
+    {
+        int* qp_solver_cond_block_size = malloc((qp_solver_cond_N+1) * sizeof(int));
+    {%- for i in range(end=solver_options.qp_solver_cond_N+1) %}
+        qp_solver_cond_block_size[{{ i }}] = {{ solver_options.qp_solver_cond_block_size[i] }};
+    {%- endfor %}
+        ocp_nlp_solver_opts_set(nlp_config, nlp_opts, "qp_cond_block_size", qp_solver_cond_block_size);
+        free(qp_solver_cond_block_size);
+    }
+    {%- endif %}
+{%- endif %}
+}
+
+
 /**
  * Internal function for {{ name }}_acados_create: step 5
  */
@@ -2703,27 +2741,6 @@ static void {{ name }}_acados_create_set_opts({{ name }}_solver_capsule* capsule
     ocp_nlp_solver_opts_set(nlp_config, nlp_opts, "levenberg_marquardt", &levenberg_marquardt);
 
     /* options QP solver */
-{%- if solver_options.qp_solver is starting_with("PARTIAL_CONDENSING") %}
-    int qp_solver_cond_N;
-
-    {%- if solver_options.qp_solver_cond_N -%}
-    const int qp_solver_cond_N_ori = {{ solver_options.qp_solver_cond_N }};
-    qp_solver_cond_N = N < qp_solver_cond_N_ori ? N : qp_solver_cond_N_ori; // use the minimum value here
-    {%- else %}
-    // NOTE: there is no condensing happening here!
-    qp_solver_cond_N = N;
-    {%- endif %}
-    ocp_nlp_solver_opts_set(nlp_config, nlp_opts, "qp_cond_N", &qp_solver_cond_N);
-
-    {%- if solver_options.qp_solver_cond_block_size and solver_options.N_horizon > 0 -%}
-    int* qp_solver_cond_block_size = malloc((qp_solver_cond_N+1) * sizeof(int));
-    {%- for i in range(end=solver_options.qp_solver_cond_N+1) %}
-    qp_solver_cond_block_size[{{ i }}] = {{ solver_options.qp_solver_cond_block_size[i] }};
-    {%- endfor %}
-    ocp_nlp_solver_opts_set(nlp_config, nlp_opts, "qp_cond_block_size", qp_solver_cond_block_size);
-    free(qp_solver_cond_block_size);
-    {%- endif %}
-{%- endif %}
 
 {%- if solver_options.regularize_method == "PROJECT" or solver_options.regularize_method == "MIRROR" or solver_options.regularize_method == "CONVEXIFY" or solver_options.regularize_method == "GERSHGORIN_LEVENBERG_MARQUARDT"%}
     double reg_epsilon = {{ solver_options.reg_epsilon }};
@@ -3023,6 +3040,7 @@ int {{ name }}_acados_create_with_discretization({{ name }}_solver_capsule* caps
     // 3) create and set nlp_opts
     capsule->nlp_opts = ocp_nlp_solver_opts_create(capsule->nlp_config, capsule->nlp_dims);
     {{ name }}_acados_create_set_opts(capsule);
+    {{ name }}_acados_create_set_cond_opts(capsule);
 
     // 4) create and set nlp_out
     // 4.1) nlp_out
-- 
2.43.0


From 39f570346a4b42a8571f054313052e897f492a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:18 +0000
Subject: [PATCH 37/66] fix: integrator options per stage with a horizon other
 than the generated one

---
 .../c_templates_tera/acados_solver.in.c              | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/interfaces/acados_template/acados_template/c_templates_tera/acados_solver.in.c b/interfaces/acados_template/acados_template/c_templates_tera/acados_solver.in.c
index c4aefd4..e34ee57 100644
--- a/interfaces/acados_template/acados_template/c_templates_tera/acados_solver.in.c
+++ b/interfaces/acados_template/acados_template/c_templates_tera/acados_solver.in.c
@@ -2637,13 +2637,13 @@ static void {{ name }}_acados_create_set_opts({{ name }}_solver_capsule* capsule
         ocp_nlp_solver_opts_set_at_stage(nlp_config, nlp_opts, i, "dynamics_num_steps", &sim_method_num_steps);
     {%- else %}
     // sim_method_num_steps are different
-    int* sim_method_num_steps = malloc(N*sizeof(int));
+    int* sim_method_num_steps = malloc({{ name | upper }}_N*sizeof(int));
     {%- for j in range(end=solver_options.N_horizon) %}
     sim_method_num_steps[{{ j }}] = {{ solver_options.sim_method_num_steps[j] }};
     {%- endfor %}
 
     for (int i = 0; i < N; i++)
-        ocp_nlp_solver_opts_set_at_stage(nlp_config, nlp_opts, i, "dynamics_num_steps", &sim_method_num_steps[i]);
+        ocp_nlp_solver_opts_set_at_stage(nlp_config, nlp_opts, i, "dynamics_num_steps", &sim_method_num_steps[i < {{ name | upper }}_N ? i : {{ name | upper }}_N-1]);
     free(sim_method_num_steps);
     {%- endif %}
 
@@ -2663,13 +2663,13 @@ static void {{ name }}_acados_create_set_opts({{ name }}_solver_capsule* capsule
     for (int i = 0; i < N; i++)
         ocp_nlp_solver_opts_set_at_stage(nlp_config, nlp_opts, i, "dynamics_num_stages", &sim_method_num_stages);
   {%- else %}
-    int* sim_method_num_stages = malloc(N*sizeof(int));
+    int* sim_method_num_stages = malloc({{ name | upper }}_N*sizeof(int));
     {%- for j in range(end=solver_options.N_horizon) %}
     sim_method_num_stages[{{ j }}] = {{ solver_options.sim_method_num_stages[j] }};
     {%- endfor %}
 
     for (int i = 0; i < N; i++)
-        ocp_nlp_solver_opts_set_at_stage(nlp_config, nlp_opts, i, "dynamics_num_stages", &sim_method_num_stages[i]);
+        ocp_nlp_solver_opts_set_at_stage(nlp_config, nlp_opts, i, "dynamics_num_stages", &sim_method_num_stages[i < {{ name | upper }}_N ? i : {{ name | upper }}_N-1]);
     free(sim_method_num_stages);
   {%- endif %}
 
@@ -2695,13 +2695,13 @@ static void {{ name }}_acados_create_set_opts({{ name }}_solver_capsule* capsule
     for (int i = 0; i < N; i++)
         ocp_nlp_solver_opts_set_at_stage(nlp_config, nlp_opts, i, "dynamics_jac_reuse", &tmp_bool);
   {%- else %}
-    bool* sim_method_jac_reuse = malloc(N*sizeof(bool));
+    bool* sim_method_jac_reuse = malloc({{ name | upper }}_N*sizeof(bool));
     {%- for j in range(end=solver_options.N_horizon) %}
     sim_method_jac_reuse[{{ j }}] = (bool){{ solver_options.sim_method_jac_reuse[j] }};
     {%- endfor %}
 
     for (int i = 0; i < N; i++)
-        ocp_nlp_solver_opts_set_at_stage(nlp_config, nlp_opts, i, "dynamics_jac_reuse", &sim_method_jac_reuse[i]);
+        ocp_nlp_solver_opts_set_at_stage(nlp_config, nlp_opts, i, "dynamics_jac_reuse", &sim_method_jac_reuse[i < {{ name | upper }}_N ? i : {{ name | upper }}_N-1]);
     free(sim_method_jac_reuse);
   {%- endif %}
 
-- 
2.43.0


From a07c17d265eb42047faaf18fd37241eb467ecf86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:18 +0000
Subject: [PATCH 38/66] fix: keep track of time steps, horizon and condensing
 horizon in the Python solver

---
 .../acados_template/acados_ocp_solver.py      | 42 ++++++++++++++++---
 1 file changed, 36 insertions(+), 6 deletions(-)

diff --git a/interfaces/acados_template/acados_template/acados_ocp_solver.py b/interfaces/acados_template/acados_template/acados_ocp_solver.py
index ce05a3a..2ffef35 100644
--- a/interfaces/acados_template/acados_template/acados_ocp_solver.py
+++ b/interfaces/acados_template/acados_template/acados_ocp_solver.py
@@ -309,6 +309,11 @@ class AcadosOcpSolver:
         # store solver-relevant information directly from the OCP formulation object
         self.__problem_class = "OCP" if isinstance(ocp, AcadosOcp) else "MOCP"
         self.__N = ocp.solver_options.N_horizon
+        # discretization of the formulation and of this solver
+        self.__time_steps_0 = np.array(ocp.solver_options.time_steps, dtype=np.float64).reshape(-1)
+        self.__time_steps = self.__time_steps_0
+        self.__qp_solver_cond_N_0 = ocp.solver_options.qp_solver_cond_N
+        self.__qp_solver_cond_N = self.__qp_solver_cond_N_0
 
         if self.__problem_class == "OCP":
             self.__has_x0 = ocp.constraints.has_x0
@@ -667,6 +672,17 @@ class AcadosOcpSolver:
         getattr(self.shared_lib, f"{self.ocp.name}_acados_reset")(self.capsule, reset_qp_solver_mem, reset_numerical_values, reset_solver_options, reset_x_to_x0_bar)
         if reset_numerical_values and self.__save_p_global:
             self.__p_global_values = np.array(self.ocp.p_global_values)
+        if reset_numerical_values and self.N == len(self.__time_steps_0):
+            # the time steps are reset as well
+            self.__store_time_steps(self.__time_steps_0)
+
+
+    def __store_time_steps(self, time_steps: np.ndarray):
+        self.__time_steps = time_steps
+        self.__N = time_steps.size
+        self.ocp.solver_options.time_steps = time_steps
+        if time_steps.size > 0:
+            self.ocp.solver_options.Tsim = time_steps[0]
 
 
     def set_new_time_steps(self, new_time_steps):
@@ -687,15 +703,20 @@ class AcadosOcpSolver:
         if not self.solver_created:
             raise RuntimeError('Solver was not yet created!')
 
+        # own copy, independent of the array of the caller
+        new_time_steps = np.array(new_time_steps, dtype=np.float64, order='C')
+        if new_time_steps.ndim != 1:
+            raise ValueError(f'new_time_steps should be a 1 dimensional array, got shape {new_time_steps.shape}')
+
         # check if time steps really changed in value
-        if np.array_equal(self.ocp.solver_options.time_steps, new_time_steps):
+        if np.array_equal(self.__time_steps, new_time_steps):
             return
 
         N = new_time_steps.size
         new_time_steps_data = cast(new_time_steps.ctypes.data, POINTER(c_double))
 
         # check if recreation of acados is necessary (no need to recreate acados if sizes are identical)
-        if len(self.ocp.solver_options.time_steps) == N:
+        if self.N == N:
             assert getattr(self.shared_lib, f"{self.ocp.name}_acados_update_time_steps")(self.capsule, N, new_time_steps_data) == 0
         else:  # recreate the solver with the new time steps
             self.solver_created = False
@@ -711,10 +732,16 @@ class AcadosOcpSolver:
             # get pointers solver
             self.__get_pointers_solver()
 
+            # the new solver starts from the values of the formulation
+            if self.__save_p_global:
+                self.__p_global_values = np.array(self.ocp.p_global_values)
+            if self.__qp_solver_cond_N_0 is not None:
+                no_condensing = self.__qp_solver_cond_N_0 == len(self.__time_steps_0)
+                self.__qp_solver_cond_N = N if no_condensing else min(N, self.__qp_solver_cond_N_0)
+                self.ocp.solver_options.qp_solver_cond_N = self.__qp_solver_cond_N
+
         # store time_steps, N
-        self.ocp.solver_options.time_steps = new_time_steps
-        self.__N = N
-        self.ocp.solver_options.Tsim = self.ocp.solver_options.time_steps[0]
+        self.__store_time_steps(new_time_steps)
 
 
     def update_qp_solver_cond_N(self, qp_solver_cond_N: int):
@@ -739,13 +766,16 @@ class AcadosOcpSolver:
             raise RuntimeError('Solver was not yet created!')
         if self.N < qp_solver_cond_N:
             raise ValueError('Setting qp_solver_cond_N to be larger than N does not work!')
-        if self.ocp.solver_options.qp_solver_cond_N != qp_solver_cond_N:
+        if self.ocp.solver_options.nlp_solver_type == 'DDP' and self.N != qp_solver_cond_N:
+            raise ValueError('DDP solver only supported for qp_solver_cond_N == N!')
+        if self.__qp_solver_cond_N != qp_solver_cond_N:
             self.solver_created = False
 
             # recreate the solver
             assert getattr(self.shared_lib, f'{self.ocp.name}_acados_update_qp_solver_cond_N')(self.capsule, qp_solver_cond_N) == 0
 
             # store the new value
+            self.__qp_solver_cond_N = qp_solver_cond_N
             self.ocp.solver_options.qp_solver_cond_N = qp_solver_cond_N
             self.solver_created = True
 
-- 
2.43.0


From ebd835a124f72cd16da7ac17052096033dfa76d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:41 +0000
Subject: [PATCH 39/66] fix: GNSF precomputation: permute ZZx, not ZZu again,
 when solving for ZZx

---
 acados/sim/sim_gnsf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acados/sim/sim_gnsf.c b/acados/sim/sim_gnsf.c
index a914761..50d8a77 100644
--- a/acados/sim/sim_gnsf.c
+++ b/acados/sim/sim_gnsf.c
@@ -953,7 +953,7 @@ int sim_gnsf_precompute(void *config_, sim_in *in, sim_out *out, void *opts_, vo
     blasfeo_dgead(nZ1, nx1, 1.0, &AA2, 0, 0, ZZx, 0, 0);  // ZZx = ZZx + AA2;
 
     // solve QQ1\ZZx and store result in ZZx;
-    blasfeo_drowpe(nZ1, ipivQQ1, ZZu);  // permute also rhs
+    blasfeo_drowpe(nZ1, ipivQQ1, ZZx);  // permute also rhs
     blasfeo_dtrsm_llnu(nZ1, nx1, 1.0, &QQ1, 0, 0, ZZx, 0, 0, ZZx, 0, 0);
     blasfeo_dtrsm_lunn(nZ1, nx1, 1.0, &QQ1, 0, 0, ZZx, 0, 0, ZZx, 0,
                        0);  // ZZx now contains QQ1\ZZx
-- 
2.43.0


From c74704da136437527934bd4c741827d87b053887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:47 +0000
Subject: [PATCH 40/66] fix: update_qp_solver_cond_N: allocate memory for the
 maximum number of iterations

---
 .../acados_template/c_templates_tera/acados_solver.in.c   | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/interfaces/acados_template/acados_template/c_templates_tera/acados_solver.in.c b/interfaces/acados_template/acados_template/c_templates_tera/acados_solver.in.c
index e34ee57..e9e18dc 100644
--- a/interfaces/acados_template/acados_template/c_templates_tera/acados_solver.in.c
+++ b/interfaces/acados_template/acados_template/c_templates_tera/acados_solver.in.c
@@ -3093,7 +3093,15 @@ int {{ name }}_acados_update_qp_solver_cond_N({{ name }}_solver_capsule* capsule
 
     // 3) continue with the remaining steps from {{ name }}_acados_create_with_discretization(...):
     // -> 8) create solver
+    // NOTE: the memory has to suffice for the maximum number of iterations of the formulation
+    ocp_nlp_opts *nlp_opts;
+    capsule->nlp_config->opts_get(capsule->nlp_config, capsule->nlp_opts, "nlp_opts", &nlp_opts);
+    const int max_iter = nlp_opts->max_iter;
+{%- if solver_options.nlp_solver_type != "SQP_RTI" %}
+    nlp_opts->max_iter = {{ solver_options.nlp_solver_max_iter }};
+{%- endif %}
     capsule->nlp_solver = ocp_nlp_solver_create(capsule->nlp_config, capsule->nlp_dims, capsule->nlp_opts, capsule->nlp_in);
+    nlp_opts->max_iter = max_iter;
 
     // -> 9) do precomputations
     int status = {{ name }}_acados_create_precompute(capsule);
-- 
2.43.0


From 64197ffd478d0d9b58c5795cbb70e5f4b560867a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:05 +0000
Subject: [PATCH 41/66] fix: resetting the integrator memory discards pending
 guesses

---
 interfaces/acados_c/ocp_nlp_interface.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/interfaces/acados_c/ocp_nlp_interface.c b/interfaces/acados_c/ocp_nlp_interface.c
index bc2e97c..adf7342 100644
--- a/interfaces/acados_c/ocp_nlp_interface.c
+++ b/interfaces/acados_c/ocp_nlp_interface.c
@@ -1416,6 +1416,9 @@ void ocp_nlp_solver_reset_integrator_memory(ocp_nlp_solver *solver, ocp_nlp_in *
     for (int i = 0; i < solver->dims->N; i++)
     {
         solver->config->dynamics[i]->reset(solver->config->dynamics[i], solver->dims->dynamics[i], nlp_in->dynamics[i], nlp_opts->dynamics[i], nlp_mem->dynamics[i], nlp_work->dynamics[i]);
+        // discard guesses that have not been passed to the integrator yet
+        nlp_mem->set_sim_guess[i] = false;
+        blasfeo_dvecse(solver->dims->nx[i] + solver->dims->nz[i], 0.0, nlp_mem->sim_guess+i, 0);
     }
 }
 
-- 
2.43.0


From c05b11c13e4f720c49bcaddccd0e1a1e4f581bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:35 +0000
Subject: [PATCH 42/66] fix: terminal cost scaling of the formulation with new
 time steps

---
 .../acados_template/c_templates_tera/acados_solver.in.c       | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/interfaces/acados_template/acados_template/c_templates_tera/acados_solver.in.c b/interfaces/acados_template/acados_template/c_templates_tera/acados_solver.in.c
index e9e18dc..a5f49e2 100644
--- a/interfaces/acados_template/acados_template/c_templates_tera/acados_solver.in.c
+++ b/interfaces/acados_template/acados_template/c_templates_tera/acados_solver.in.c
@@ -1127,8 +1127,10 @@ void {{ name }}_acados_create_setup_nlp_in_numerical_values({{ name }}_solver_ca
 
     if (new_time_steps)
     {
-        // NOTE: this sets scaling and time_steps
+        // NOTE: this sets scaling and time_steps of all intervals
         {{ name }}_acados_update_time_steps(capsule, N, new_time_steps);
+        double terminal_scaling = {{ solver_options.cost_scaling[solver_options.N_horizon] }};
+        ocp_nlp_cost_model_set(nlp_config, nlp_dims, nlp_in, N, "scaling", &terminal_scaling);
     }
     else
     {
-- 
2.43.0


From 70d7d2bad822be5b6dae50fb286bb278be7a411a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:02 +0000
Subject: [PATCH 43/66] fix: DDP: external QP residuals: use the residual
 memory that is allocated

---
 acados/ocp_nlp/ocp_nlp_ddp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acados/ocp_nlp/ocp_nlp_ddp.c b/acados/ocp_nlp/ocp_nlp_ddp.c
index 2af1dc7..328453b 100644
--- a/acados/ocp_nlp/ocp_nlp_ddp.c
+++ b/acados/ocp_nlp/ocp_nlp_ddp.c
@@ -766,7 +766,7 @@ int ocp_nlp_ddp(void *config_, void *dims_, void *nlp_in_, void *nlp_out_,
         if (nlp_opts->ext_qp_res)
         {
             if (ddp_iter+1 < mem->stat_m)
-                ocp_qp_res_compute_nrm_inf(work->qp_res, mem->stat+(mem->stat_n*(ddp_iter+1)+7));
+                ocp_qp_res_compute_nrm_inf(nlp_work->qp_res, mem->stat+(mem->stat_n*(ddp_iter+1)+7));
         }
 
         // exit conditions on QP status
-- 
2.43.0


From 38f314fb83b7ce46af1d597ae4ca9a6b8a9a068f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:57 +0000
Subject: [PATCH 44/66] fix: step norms of earlier solver calls were reported
 for iterations whose QP failed

---
 acados/ocp_nlp/ocp_nlp_sqp.c                  | 7 +++++++
 acados/ocp_nlp/ocp_nlp_sqp_with_feasible_qp.c | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/acados/ocp_nlp/ocp_nlp_sqp.c b/acados/ocp_nlp/ocp_nlp_sqp.c
index b8f9e74..92bc8a0 100644
--- a/acados/ocp_nlp/ocp_nlp_sqp.c
+++ b/acados/ocp_nlp/ocp_nlp_sqp.c
@@ -535,6 +535,13 @@ int ocp_nlp_sqp(void *config_, void *dims_, void *nlp_in_, void *nlp_out_,
     // reset statistics, to not report values of previous solver calls
     for (int i = 0; i < mem->stat_m * mem->stat_n; i++)
         mem->stat[i] = 0.0;
+    for (int i = 0; i < mem->stat_m - 1; i++)
+    {
+        if (nlp_opts->log_primal_step_norm)
+            nlp_mem->primal_step_norm[i] = 0.0;
+        if (nlp_opts->log_dual_step_norm)
+            nlp_mem->dual_step_norm[i] = 0.0;
+    }
     double prev_levenberg_marquardt = 0.0;
     int globalization_status;
 
diff --git a/acados/ocp_nlp/ocp_nlp_sqp_with_feasible_qp.c b/acados/ocp_nlp/ocp_nlp_sqp_with_feasible_qp.c
index 6828397..d85756a 100644
--- a/acados/ocp_nlp/ocp_nlp_sqp_with_feasible_qp.c
+++ b/acados/ocp_nlp/ocp_nlp_sqp_with_feasible_qp.c
@@ -1609,6 +1609,13 @@ int ocp_nlp_sqp_wfqp(void *config_, void *dims_, void *nlp_in_, void *nlp_out_,
     // reset statistics, to not report values of previous solver calls
     for (int i = 0; i < mem->stat_m * mem->stat_n; i++)
         mem->stat[i] = 0.0;
+    for (int i = 0; i < mem->stat_m - 1; i++)
+    {
+        if (nlp_opts->log_primal_step_norm)
+            nlp_mem->primal_step_norm[i] = 0.0;
+        if (nlp_opts->log_dual_step_norm)
+            nlp_mem->dual_step_norm[i] = 0.0;
+    }
     double prev_levenberg_marquardt = 0.0;
     int search_direction_status = 0;
 
-- 
2.43.0


From a0be925f06f53c73d2878b4ad4059c75af6c9e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:31 +0000
Subject: [PATCH 45/66] fix: lifted IRK: do not continue from invalid values of
 a previous failed call

---
 acados/sim/sim_lifted_irk_integrator.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/acados/sim/sim_lifted_irk_integrator.c b/acados/sim/sim_lifted_irk_integrator.c
index 3738cb5..95aa46d 100644
--- a/acados/sim/sim_lifted_irk_integrator.c
+++ b/acados/sim/sim_lifted_irk_integrator.c
@@ -33,6 +33,7 @@
 
 // standard
 #include <assert.h>
+#include <math.h>
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
@@ -815,6 +816,15 @@ int sim_lifted_irk(void *config_, sim_in *in, sim_out *out, void *opts_, void *m
         blasfeo_daxpy(nx, -1.0, mem->x, 0, w, 0, w, 0);
         blasfeo_daxpy(nu, -1.0, mem->u, 0, w, nx, w, nx);
         blasfeo_dgemv_n(nx * ns, nx + nu, 1.0, &JKf[ss], 0, 0, w, 0, 1.0, &K[ss], 0, &K[ss], 0);
+        // do not continue from invalid values of a previous failed call
+        for (ii = 0; ii < nx * ns; ii++)
+        {
+            if (!isfinite(BLASFEO_DVECEL(&K[ss], ii)))
+            {
+                blasfeo_dvecse(nx * ns, 0.0, &K[ss], 0);
+                break;
+            }
+        }
 
         blasfeo_pack_dvec(nx, in->x, 1, mem->x, 0);
         blasfeo_pack_dvec(nu, in->u, 1, mem->u, 0);
-- 
2.43.0


From 16c1513725e1e4d602fe115a5ef8dd56804b0ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:31 +0000
Subject: [PATCH 46/66] fix: SQP_RTI: do not warm start the QP from the result
 of a failed QP

---
 acados/ocp_nlp/ocp_nlp_sqp_rti.c | 11 +++++++----
 acados/ocp_nlp/ocp_nlp_sqp_rti.h |  1 +
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/acados/ocp_nlp/ocp_nlp_sqp_rti.c b/acados/ocp_nlp/ocp_nlp_sqp_rti.c
index 32aba5f..e0e5079 100644
--- a/acados/ocp_nlp/ocp_nlp_sqp_rti.c
+++ b/acados/ocp_nlp/ocp_nlp_sqp_rti.c
@@ -301,6 +301,7 @@ void *ocp_nlp_sqp_rti_memory_assign(void *config_, void *dims_,
 
     mem->nlp_mem->status = ACADOS_READY;
     mem->is_first_call = true;
+    mem->last_qp_failed = false;
 
     assert((char *) raw_memory+ocp_nlp_sqp_rti_memory_calculate_size(
         config, dims, opts, in) >= c_ptr);
@@ -585,9 +586,9 @@ static void ocp_nlp_sqp_rti_feedback_step(ocp_nlp_config *config, ocp_nlp_dims *
     }
 
     // set QP warm start
-    if (mem->is_first_call)
+    if (mem->is_first_call || mem->last_qp_failed)
     {
-        if (!nlp_opts->warm_start_first_qp)
+        if (!nlp_opts->warm_start_first_qp || mem->last_qp_failed)
         {
             int tmp_int = 0;
             config->qp_solver->opts_set(config->qp_solver,
@@ -614,7 +615,7 @@ static void ocp_nlp_sqp_rti_feedback_step(ocp_nlp_config *config, ocp_nlp_dims *
     qp_iter = qp_info_->num_iter;
 
     // restore default warm start
-    if (mem->is_first_call)
+    if (mem->is_first_call || mem->last_qp_failed)
     {
         config->qp_solver->opts_set(config->qp_solver, nlp_opts->qp_solver_opts, "warm_start", &nlp_opts->qp_warm_start);
     }
@@ -632,7 +633,8 @@ static void ocp_nlp_sqp_rti_feedback_step(ocp_nlp_config *config, ocp_nlp_dims *
     // save statistics
     rti_store_qp_info_in_stats(mem, qp_status, qp_iter);
 
-    if ((qp_status!=ACADOS_SUCCESS) & (qp_status!=ACADOS_MAXITER))
+    mem->last_qp_failed = (qp_status!=ACADOS_SUCCESS) & (qp_status!=ACADOS_MAXITER);
+    if (mem->last_qp_failed)
     {
 #ifndef ACADOS_SILENT
         printf("\nSQP_RTI: QP solver returned error status %d (%s) QP iteration %d.\n",
@@ -1250,6 +1252,7 @@ void ocp_nlp_sqp_rti_memory_reset_qp_solver(void *config_, void *dims_, void *nl
     ocp_nlp_workspace *nlp_work = work->nlp_work;
 
     mem->is_first_call = true;
+    mem->last_qp_failed = false;
 
     config->qp_solver->memory_reset(qp_solver, dims->qp_solver,
         nlp_mem->qp_in, nlp_mem->qp_out, opts->nlp_opts->qp_solver_opts,
diff --git a/acados/ocp_nlp/ocp_nlp_sqp_rti.h b/acados/ocp_nlp/ocp_nlp_sqp_rti.h
index 1d9d100..779b28a 100644
--- a/acados/ocp_nlp/ocp_nlp_sqp_rti.h
+++ b/acados/ocp_nlp/ocp_nlp_sqp_rti.h
@@ -120,6 +120,7 @@ typedef struct
     int stat_n;
 
     bool is_first_call;
+    bool last_qp_failed;  // do not warm start from the result of a failed QP
 
 } ocp_nlp_sqp_rti_memory;
 
-- 
2.43.0


From 1b1d5a8bf5f8edb14bc74144771d2503dcfd7bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:00 +0000
Subject: [PATCH 47/66] fix: AS-RTI: standard preparation if the QP of the last
 linearization failed

---
 acados/ocp_nlp/ocp_nlp_sqp_rti.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/acados/ocp_nlp/ocp_nlp_sqp_rti.c b/acados/ocp_nlp/ocp_nlp_sqp_rti.c
index e0e5079..cf70c8b 100644
--- a/acados/ocp_nlp/ocp_nlp_sqp_rti.c
+++ b/acados/ocp_nlp/ocp_nlp_sqp_rti.c
@@ -846,8 +846,11 @@ static void ocp_nlp_sqp_rti_preparation_advanced_step(ocp_nlp_config *config, oc
         as_rti_sanity_checks(config, dims, opts);
     }
 
+    // levels A, B, C rely on the linearization of the last call, do a standard preparation if there is none or a QP failed with it
+    bool use_last_linearization = !mem->is_first_call && !mem->last_qp_failed;
+
     // if AS_RTI-A and not first call!
-    if (opts->as_rti_level == LEVEL_A && !mem->is_first_call)
+    if (opts->as_rti_level == LEVEL_A && use_last_linearization)
     {
         // load iterate from tmp
         copy_ocp_nlp_out(dims, tmp_nlp_out, nlp_out);
@@ -891,6 +894,7 @@ static void ocp_nlp_sqp_rti_preparation_advanced_step(ocp_nlp_config *config, oc
             printf("\nSQP_RTI: QP solver returned error status %d (%s) QP iteration %d.\n",
                 qp_status, status_to_string(qp_status), qp_iter);
 #endif
+            mem->last_qp_failed = true;
             nlp_mem->status = ACADOS_QP_FAILURE;
             return;
         }
@@ -915,7 +919,7 @@ static void ocp_nlp_sqp_rti_preparation_advanced_step(ocp_nlp_config *config, oc
             return;
         }
     }
-    else if (opts->as_rti_level == LEVEL_B && !mem->is_first_call)
+    else if (opts->as_rti_level == LEVEL_B && use_last_linearization)
     {
         // perform zero-order iterations
         for (; nlp_mem->iter < opts->as_rti_iter; nlp_mem->iter++)
@@ -959,6 +963,7 @@ static void ocp_nlp_sqp_rti_preparation_advanced_step(ocp_nlp_config *config, oc
                 printf("\nSQP_RTI: QP solver returned error status %d (%s) QP iteration %d.\n",
                     qp_status, status_to_string(qp_status), qp_iter);
 #endif
+                mem->last_qp_failed = true;
                 nlp_mem->status = ACADOS_QP_FAILURE;
                 return;
             }
@@ -983,7 +988,7 @@ static void ocp_nlp_sqp_rti_preparation_advanced_step(ocp_nlp_config *config, oc
             }
         }
     }
-    else if (opts->as_rti_level == LEVEL_C && !mem->is_first_call)
+    else if (opts->as_rti_level == LEVEL_C && use_last_linearization)
     {
         // perform iterations
         for (; nlp_mem->iter < opts->as_rti_iter; nlp_mem->iter++)
@@ -1022,6 +1027,7 @@ static void ocp_nlp_sqp_rti_preparation_advanced_step(ocp_nlp_config *config, oc
                 printf("\nSQP_RTI: QP solver returned error status %d (%s) QP iteration %d.\n",
                     qp_status, status_to_string(qp_status), qp_iter);
 #endif
+                mem->last_qp_failed = true;
                 nlp_mem->status = ACADOS_QP_FAILURE;
                 return;
             }
@@ -1094,6 +1100,7 @@ static void ocp_nlp_sqp_rti_preparation_advanced_step(ocp_nlp_config *config, oc
                 printf("\nSQP_RTI: QP solver returned error status %d (%s) QP iteration %d.\n",
                     qp_status, status_to_string(qp_status), qp_iter);
 #endif
+                mem->last_qp_failed = true;
                 mem->nlp_mem->status = ACADOS_QP_FAILURE;
                 return;
             }
-- 
2.43.0


From 1227bd50ecdad8de22603c5a150e05f400cd9fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:35 +0000
Subject: [PATCH 48/66] fix: SQP, DDP: do not warm start the first QP from the
 result of a failed QP

---
 acados/ocp_nlp/ocp_nlp_ddp.c                  | 7 +++++--
 acados/ocp_nlp/ocp_nlp_ddp.h                  | 2 ++
 acados/ocp_nlp/ocp_nlp_sqp.c                  | 7 +++++--
 acados/ocp_nlp/ocp_nlp_sqp.h                  | 2 ++
 acados/ocp_nlp/ocp_nlp_sqp_with_feasible_qp.c | 8 +++++++-
 acados/ocp_nlp/ocp_nlp_sqp_with_feasible_qp.h | 3 +++
 6 files changed, 24 insertions(+), 5 deletions(-)

diff --git a/acados/ocp_nlp/ocp_nlp_ddp.c b/acados/ocp_nlp/ocp_nlp_ddp.c
index 328453b..62535f0 100644
--- a/acados/ocp_nlp/ocp_nlp_ddp.c
+++ b/acados/ocp_nlp/ocp_nlp_ddp.c
@@ -272,6 +272,7 @@ void *ocp_nlp_ddp_memory_assign(void *config_, void *dims_, void *opts_, void *i
     c_ptr += nu_max*nx_max*sizeof(double);
 
     mem->nlp_mem->status = ACADOS_READY;
+    mem->last_qp_failed = false;
 
     align_char_to(8, &c_ptr);
 
@@ -717,7 +718,7 @@ int ocp_nlp_ddp(void *config_, void *dims_, void *nlp_in_, void *nlp_out_,
         // warm start of first QP
         if (ddp_iter == 0)
         {
-            if (!nlp_opts->warm_start_first_qp)
+            if (!nlp_opts->warm_start_first_qp || mem->last_qp_failed)
             {
                 // (typically) no warm start at first iteration
                 tmp_int = 0;
@@ -770,7 +771,8 @@ int ocp_nlp_ddp(void *config_, void *dims_, void *nlp_in_, void *nlp_out_,
         }
 
         // exit conditions on QP status
-        if ((qp_status!=ACADOS_SUCCESS) & (qp_status!=ACADOS_MAXITER))
+        mem->last_qp_failed = (qp_status!=ACADOS_SUCCESS) & (qp_status!=ACADOS_MAXITER);
+        if (mem->last_qp_failed)
         {
             // increment ddp_iter to return full statistics and improve output below.
             ddp_iter++;
@@ -888,6 +890,7 @@ void ocp_nlp_ddp_memory_reset_qp_solver(void *config_, void *dims_, void *nlp_in
     ocp_nlp_workspace *nlp_work = work->nlp_work;
 
     // printf("in ocp_nlp_ddp_memory_reset_qp_solver\n\n");
+    mem->last_qp_failed = false;
     config->qp_solver->memory_reset(qp_solver, dims->qp_solver,
         nlp_mem->qp_in, nlp_mem->qp_out, opts->nlp_opts->qp_solver_opts,
         nlp_mem->qp_solver_mem, nlp_work->qp_work);
diff --git a/acados/ocp_nlp/ocp_nlp_ddp.h b/acados/ocp_nlp/ocp_nlp_ddp.h
index c9c86ce..990a485 100644
--- a/acados/ocp_nlp/ocp_nlp_ddp.h
+++ b/acados/ocp_nlp/ocp_nlp_ddp.h
@@ -95,6 +95,8 @@ typedef struct
     // regularization for Levenberg-Marquardt
     double step_norm;
 
+    bool last_qp_failed;  // do not warm start from the result of a failed QP
+
 } ocp_nlp_ddp_memory;
 
 //
diff --git a/acados/ocp_nlp/ocp_nlp_sqp.c b/acados/ocp_nlp/ocp_nlp_sqp.c
index 92bc8a0..25b82ec 100644
--- a/acados/ocp_nlp/ocp_nlp_sqp.c
+++ b/acados/ocp_nlp/ocp_nlp_sqp.c
@@ -274,6 +274,7 @@ void *ocp_nlp_sqp_memory_assign(void *config_, void *dims_, void *opts_, void *i
     mem->timeout_estimated_per_iteration_time = 0;
 
     mem->nlp_mem->status = ACADOS_READY;
+    mem->last_qp_failed = false;
 
     align_char_to(8, &c_ptr);
 
@@ -669,7 +670,7 @@ int ocp_nlp_sqp(void *config_, void *dims_, void *nlp_in_, void *nlp_out_,
         // warm start of first QP
         if (nlp_mem->iter == 0)
         {
-            if (!nlp_opts->warm_start_first_qp)
+            if (!nlp_opts->warm_start_first_qp || mem->last_qp_failed)
             {
                 // (typically) no warm start at first iteration
                 tmp_int = 0;
@@ -727,7 +728,8 @@ int ocp_nlp_sqp(void *config_, void *dims_, void *nlp_in_, void *nlp_out_,
         }
 
         // exit conditions on QP status
-        if ((qp_status!=ACADOS_SUCCESS) & (qp_status!=ACADOS_MAXITER))
+        mem->last_qp_failed = (qp_status!=ACADOS_SUCCESS) & (qp_status!=ACADOS_MAXITER);
+        if (mem->last_qp_failed)
         {
             if (nlp_opts->print_level > 0)
             {
@@ -864,6 +866,7 @@ void ocp_nlp_sqp_memory_reset_qp_solver(void *config_, void *dims_, void *nlp_in
     ocp_nlp_workspace *nlp_work = work->nlp_work;
 
     // printf("in ocp_nlp_sqp_memory_reset_qp_solver\n\n");
+    mem->last_qp_failed = false;
     config->qp_solver->memory_reset(qp_solver, dims->qp_solver,
         nlp_mem->qp_in, nlp_mem->qp_out, opts->nlp_opts->qp_solver_opts,
         nlp_mem->qp_solver_mem, nlp_work->qp_work);
diff --git a/acados/ocp_nlp/ocp_nlp_sqp.h b/acados/ocp_nlp/ocp_nlp_sqp.h
index 25a572b..00b1b3f 100644
--- a/acados/ocp_nlp/ocp_nlp_sqp.h
+++ b/acados/ocp_nlp/ocp_nlp_sqp.h
@@ -96,6 +96,8 @@ typedef struct
     double step_norm;
     double timeout_estimated_per_iteration_time;
 
+    bool last_qp_failed;  // do not warm start from the result of a failed QP
+
 } ocp_nlp_sqp_memory;
 
 //
diff --git a/acados/ocp_nlp/ocp_nlp_sqp_with_feasible_qp.c b/acados/ocp_nlp/ocp_nlp_sqp_with_feasible_qp.c
index d85756a..23193db 100644
--- a/acados/ocp_nlp/ocp_nlp_sqp_with_feasible_qp.c
+++ b/acados/ocp_nlp/ocp_nlp_sqp_with_feasible_qp.c
@@ -429,6 +429,8 @@ void *ocp_nlp_sqp_wfqp_memory_assign(void *config_, void *dims_, void *opts_, vo
     }
 
     mem->nlp_mem->status = ACADOS_READY;
+    mem->last_qp_failed = false;
+    mem->last_relaxed_qp_failed = false;
     mem->timeout_estimated_per_iteration_time = 0;
     assign_and_advance_char(MAX_STR_LEN, &mem->search_direction_type, &c_ptr);
 
@@ -966,9 +968,10 @@ static int prepare_and_solve_QP(ocp_nlp_config* config, ocp_nlp_sqp_wfqp_opts* o
 
     // printf("\nprepare_and_solve_QP: solve_feasibility_qp %d\n", solve_feasibility_qp);
     // warm start of first QP
+    bool *last_qp_failed = solve_feasibility_qp ? &mem->last_relaxed_qp_failed : &mem->last_qp_failed;
     if (nlp_mem->iter == 0)
     {
-        if (!nlp_opts->warm_start_first_qp)
+        if (!nlp_opts->warm_start_first_qp || *last_qp_failed)
         {
             // (typically) no warm start at first iteration
             tmp_int = 0;
@@ -1032,6 +1035,7 @@ static int prepare_and_solve_QP(ocp_nlp_config* config, ocp_nlp_sqp_wfqp_opts* o
                                                     NULL, NULL, NULL, NULL, NULL);
     }
     mem->qps_solved_in_iter += 1;
+    *last_qp_failed = (qp_status!=ACADOS_SUCCESS) & (qp_status!=ACADOS_MAXITER);
 
     // restore default warm start
     if (nlp_mem->iter==0)
@@ -1840,6 +1844,8 @@ void ocp_nlp_sqp_wfqp_memory_reset_qp_solver(void *config_, void *dims_, void *n
     ocp_nlp_workspace *nlp_work = work->nlp_work;
     ocp_qp_xcond_solver relaxed_qp_solver = mem->relaxed_qp_solver;
 
+    mem->last_qp_failed = false;
+    mem->last_relaxed_qp_failed = false;
     config->qp_solver->memory_reset(qp_solver, dims->qp_solver,
         nlp_mem->qp_in, nlp_mem->qp_out, opts->nlp_opts->qp_solver_opts,
         nlp_mem->qp_solver_mem, nlp_work->qp_work);
diff --git a/acados/ocp_nlp/ocp_nlp_sqp_with_feasible_qp.h b/acados/ocp_nlp/ocp_nlp_sqp_with_feasible_qp.h
index b48cae3..69eec4e 100644
--- a/acados/ocp_nlp/ocp_nlp_sqp_with_feasible_qp.h
+++ b/acados/ocp_nlp/ocp_nlp_sqp_with_feasible_qp.h
@@ -107,6 +107,9 @@ typedef struct
     double norm_inf_pi;
     double norm_inf_lam;
 
+    bool last_qp_failed;  // do not warm start from the result of a failed QP
+    bool last_relaxed_qp_failed;
+
     struct blasfeo_dvec *Z_cost_module;  // Z values from cost module
     struct blasfeo_dmat *RSQ_cost;
     struct blasfeo_dmat *RSQ_constr;
-- 
2.43.0


From 03083cde07af92d80f72875533bfa44ec5f3addb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:36 +0000
Subject: [PATCH 49/66] fix: dump_last_qp_to_json: exact values, same keys as
 the Python backend, errors instead of crashes

---
 interfaces/acados_c/ocp_nlp_interface.c       | 30 ++++++++++++++++---
 interfaces/acados_matlab_octave/ocp_dump_qp.c |  2 +-
 .../acados_template/acados_ocp_solver.py      | 12 ++++----
 3 files changed, 34 insertions(+), 10 deletions(-)

diff --git a/interfaces/acados_c/ocp_nlp_interface.c b/interfaces/acados_c/ocp_nlp_interface.c
index adf7342..c343d28 100644
--- a/interfaces/acados_c/ocp_nlp_interface.c
+++ b/interfaces/acados_c/ocp_nlp_interface.c
@@ -33,6 +33,7 @@
 
 // external
 #include <assert.h>
+#include <math.h>
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
@@ -2204,7 +2205,14 @@ void _write_json(FILE *fp, const char *key, void *data, int rows, int cols, int
             fprintf(fp, "        [");
             for (int c = 0; c < cols; c++)
             {
-                fprintf(fp, "%.10e", ((double*)data)[c * rows + r]);
+                double value = ((double*)data)[c * rows + r];
+                // not finite: same tokens as the json module of Python
+                if (isnan(value))
+                    fprintf(fp, "NaN");
+                else if (isinf(value))
+                    fprintf(fp, value > 0 ? "Infinity" : "-Infinity");
+                else
+                    fprintf(fp, "%.16e", value);
                 if (c < cols - 1) fprintf(fp, ", ");
             }
             fprintf(fp, "]");
@@ -2215,7 +2223,7 @@ void _write_json(FILE *fp, const char *key, void *data, int rows, int cols, int
 }
 
 
-void ocp_nlp_dump_last_qp_to_json(ocp_nlp_config *config, ocp_nlp_dims *dims, ocp_nlp_solver *solver, const char *filename)
+int ocp_nlp_dump_last_qp_to_json(ocp_nlp_config *config, ocp_nlp_dims *dims, ocp_nlp_solver *solver, const char *filename)
 {
 
     // char* _qp_dynamics_field[] = {"A", "B", "b"};
@@ -2248,11 +2256,18 @@ void ocp_nlp_dump_last_qp_to_json(ocp_nlp_config *config, ocp_nlp_dims *dims, oc
     int size1 = 0, size2 = 0;
     int is_first = 1, is_int = 0;
     int num_fields = sizeof(_qp_fields) / sizeof(_qp_fields[0]);
-    int width = snprintf(NULL, 0, "%d", dims->N);
+    // same number of digits as in the Python interface
+    int width = snprintf(NULL, 0, "%d", dims->N+1);
     char key[MAX_STR_LEN];
 
     // go through fields of last QP and write to json
     FILE *fp = fopen(filename, "w");
+    if (fp == NULL)
+    {
+        printf("\nerror: ocp_nlp_dump_last_qp_to_json: could not open file %s\n", filename);
+        free(buffer);
+        return 1;
+    }
     fprintf(fp, "{\n");
     for (int i = 0; i < num_fields; i++)
     {
@@ -2374,6 +2389,13 @@ void ocp_nlp_dump_last_qp_to_json(ocp_nlp_config *config, ocp_nlp_dims *dims, oc
     }
     // End JSON object
     fprintf(fp, "\n}\n");
-    fclose(fp);
     free(buffer);
+
+    int write_error = ferror(fp);
+    if (fclose(fp) != 0 || write_error)
+    {
+        printf("\nerror: ocp_nlp_dump_last_qp_to_json: could not write file %s\n", filename);
+        return 1;
+    }
+    return 0;
 }
\ No newline at end of file
diff --git a/interfaces/acados_matlab_octave/ocp_dump_qp.c b/interfaces/acados_matlab_octave/ocp_dump_qp.c
index d0dbfb4..2c3917d 100644
--- a/interfaces/acados_matlab_octave/ocp_dump_qp.c
+++ b/interfaces/acados_matlab_octave/ocp_dump_qp.c
@@ -37,7 +37,7 @@
 // mex
 #include "mex.h"
 
-extern void ocp_nlp_dump_last_qp_to_json(ocp_nlp_config *config, ocp_nlp_dims *dims, ocp_nlp_solver *solver, const char *filename);
+extern int ocp_nlp_dump_last_qp_to_json(ocp_nlp_config *config, ocp_nlp_dims *dims, ocp_nlp_solver *solver, const char *filename);
 
 void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
 {
diff --git a/interfaces/acados_template/acados_template/acados_ocp_solver.py b/interfaces/acados_template/acados_template/acados_ocp_solver.py
index 2ffef35..fe5e284 100644
--- a/interfaces/acados_template/acados_template/acados_ocp_solver.py
+++ b/interfaces/acados_template/acados_template/acados_ocp_solver.py
@@ -437,7 +437,7 @@ class AcadosOcpSolver:
         self.__acados_lib.ocp_nlp_out_set_values_to_zero.argtypes = [c_void_p, c_void_p, c_void_p]
 
         self.__acados_lib.ocp_nlp_dump_last_qp_to_json.argtypes = [c_void_p, c_void_p, c_void_p, c_char_p]
-        self.__acados_lib.ocp_nlp_dump_last_qp_to_json.restype = None
+        self.__acados_lib.ocp_nlp_dump_last_qp_to_json.restype = c_int
 
         getattr(self.shared_lib, f"{self.ocp.name}_acados_solve").argtypes = [c_void_p]
         getattr(self.shared_lib, f"{self.ocp.name}_acados_solve").restype = c_int
@@ -1575,10 +1575,12 @@ class AcadosOcpSolver:
                 json.dump(qp_data, f, default=make_object_json_dumpable, indent=4, sort_keys=True)
             print("stored qp from solver memory in ", os.path.join(os.getcwd(), filename))
         elif backend == 'C':
-            self.__acados_lib.ocp_nlp_dump_last_qp_to_json(self.nlp_config,
-                                                           self.nlp_dims,
-                                                           self.nlp_solver,
-                                                           filename.encode('utf-8'))
+            status = self.__acados_lib.ocp_nlp_dump_last_qp_to_json(self.nlp_config,
+                                                                    self.nlp_dims,
+                                                                    self.nlp_solver,
+                                                                    filename.encode('utf-8'))
+            if status != 0:
+                raise OSError(f"dump_last_qp_to_json: failed to write {filename}")
             print("\nDumping last QP to JSON file with C backend:", os.path.join(os.getcwd(), filename))
         else:
             raise ValueError("backend should be string with value 'Python' or 'C'")
-- 
2.43.0


From 4032aee5663edcd2e99d78f18eba45b5b4b34d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:54 +0000
Subject: [PATCH 50/66] fix: store_iterate, dump_last_qp_to_json: existing
 files could be overwritten with overwrite=False

---
 .../acados_template/acados_ocp_solver.py      | 26 +++++++++++++------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/interfaces/acados_template/acados_template/acados_ocp_solver.py b/interfaces/acados_template/acados_template/acados_ocp_solver.py
index fe5e284..e800bf4 100644
--- a/interfaces/acados_template/acados_template/acados_ocp_solver.py
+++ b/interfaces/acados_template/acados_template/acados_ocp_solver.py
@@ -1418,6 +1418,22 @@ class AcadosOcpSolver:
         return
 
 
+    @staticmethod
+    def __get_unused_filename(filename: str) -> str:
+        """
+        Returns filename if no such file exists, otherwise the filename with timestamp.
+        """
+        if not os.path.isfile(filename):
+            return filename
+        base = os.path.splitext(filename)[0] + datetime.now().strftime('%Y-%m-%d-%H:%M:%S.%f')
+        filename = base + '.json'
+        i = 1
+        while os.path.isfile(filename):
+            filename = f'{base}_{i}.json'
+            i += 1
+        return filename
+
+
     def store_iterate(self, filename: str = '', overwrite: bool = False, verbose: bool = True):
         """
         Stores the current iterate of the OCP solver in a json file.
@@ -1430,10 +1446,7 @@ class AcadosOcpSolver:
             filename = f'{self.ocp.name}_iterate.json'
 
         if not overwrite:
-            # append timestamp
-            if os.path.isfile(filename):
-                filename = filename[:-5]
-                filename += datetime.now().strftime('%Y-%m-%d-%H:%M:%S.%f') + '.json'
+            filename = self.__get_unused_filename(filename)
 
         # get iterate:
         solution = dict()
@@ -1562,10 +1575,7 @@ class AcadosOcpSolver:
             filename = f'{self.ocp.name}_QP.json'
 
         if not overwrite:
-            # append timestamp
-            if os.path.isfile(filename):
-                filename = filename[:-5]
-                filename += datetime.now().strftime('%Y-%m-%d-%H:%M:%S.%f') + '.json'
+            filename = self.__get_unused_filename(filename)
 
         if backend == 'Python':
             # get QP data:
-- 
2.43.0


From 24028b5e536c621c926cc84b46de9a3b16fabf46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:54 +0000
Subject: [PATCH 51/66] fix: AcadosOcpQp: QPs with stages without controls
 could not be loaded

---
 interfaces/acados_template/acados_template/acados_ocp_qp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/interfaces/acados_template/acados_template/acados_ocp_qp.py b/interfaces/acados_template/acados_template/acados_ocp_qp.py
index 7bd1519..7a8f7f3 100644
--- a/interfaces/acados_template/acados_template/acados_ocp_qp.py
+++ b/interfaces/acados_template/acados_template/acados_ocp_qp.py
@@ -326,7 +326,8 @@ class AcadosOcpQp:
 
                 nx_next = self.A[i].shape[0]
 
-                assert self.B[i].shape[0] == nx_next, "Inconsistent dimensions between A and B matrices."
+                if nu > 0:
+                    assert self.B[i].shape[0] == nx_next, "Inconsistent dimensions between A and B matrices."
                 assert self.b[i].shape[0] == nx_next, "Inconsistent dimensions between A and b matrices."
 
             # constraints
-- 
2.43.0


From 4e20b8d7c3cf9425d9681491cccce9c8631b1799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:43 +0000
Subject: [PATCH 52/66] fix: funnel globalization:
 globalization_funnel_initial_penalty_parameter had no effect

---
 acados/ocp_nlp/ocp_nlp_globalization_funnel.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acados/ocp_nlp/ocp_nlp_globalization_funnel.c b/acados/ocp_nlp/ocp_nlp_globalization_funnel.c
index 2dfbbcf..a9bc93c 100644
--- a/acados/ocp_nlp/ocp_nlp_globalization_funnel.c
+++ b/acados/ocp_nlp/ocp_nlp_globalization_funnel.c
@@ -601,7 +601,7 @@ void ocp_nlp_globalization_funnel_initialize_memory(void *config_, void *dims_,
     mem->funnel_iter_type = '-';
     initialize_funnel_penalty_parameter(mem, opts);
     mem->alpha = 1.0;
-    mem->penalty_parameter = nlp_mem->objective_multiplier;
+    nlp_mem->objective_multiplier = mem->penalty_parameter;
 }
 
 void ocp_nlp_globalization_funnel_config_initialize_default(ocp_nlp_globalization_config *config)
-- 
2.43.0


From 45e3cf658151e6e07b09b287200a49a0795c0ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:03 +0000
Subject: [PATCH 53/66] fix: merit function gradient: lower bounds entered with
 the wrong sign, general constraints with the wrong Jacobian entries

---
 acados/ocp_nlp/ocp_nlp_globalization_merit_backtracking.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/acados/ocp_nlp/ocp_nlp_globalization_merit_backtracking.c b/acados/ocp_nlp/ocp_nlp_globalization_merit_backtracking.c
index 7a7e428..a3c295d 100644
--- a/acados/ocp_nlp/ocp_nlp_globalization_merit_backtracking.c
+++ b/acados/ocp_nlp/ocp_nlp_globalization_merit_backtracking.c
@@ -253,13 +253,13 @@ static double ocp_nlp_compute_merit_gradient(ocp_nlp_config *config, ocp_nlp_dim
                     if (j < nb[i])
                     {
                         // printf("lower idxb[%d] = %d dir %f, constraint_val %f, nb = %d\n", j, idxb[j], BLASFEO_DVECEL(mem->qp_out->ux, idxb[j]), constraint_val, nb[i]);
-                        merit_grad_ineq += weight * BLASFEO_DVECEL(mem->qp_out->ux+i, idxb[j]);
+                        merit_grad_ineq -= weight * BLASFEO_DVECEL(mem->qp_out->ux+i, idxb[j]);
                     }
                     else if (j < nb[i] + ng[i])
                     {
                         // merit_grad_ineq += weight * mem->qp_in->DCt_j * dux
-                        blasfeo_dcolex(nx[i] + nu[i], mem->qp_in->DCt+i, j - nb[i], 0, &tmp_vec_nxu, 0);
-                        merit_grad_ineq += weight * blasfeo_ddot(nx[i] + nu[i], &tmp_vec_nxu, 0, mem->qp_out->ux+i, 0);
+                        blasfeo_dcolex(nx[i] + nu[i], mem->qp_in->DCt+i, 0, j - nb[i], &tmp_vec_nxu, 0);
+                        merit_grad_ineq -= weight * blasfeo_ddot(nx[i] + nu[i], &tmp_vec_nxu, 0, mem->qp_out->ux+i, 0);
                         // printf("general linear constraint lower contribution = %e, val = %e\n", blasfeo_ddot(nx[i] + nu[i], &tmp_vec_nxu, 0, mem->qp_out->ux+i, 0), constraint_val);
                     }
                     else if (j < 2*nb[i] + ng[i])
@@ -269,7 +269,7 @@ static double ocp_nlp_compute_merit_gradient(ocp_nlp_config *config, ocp_nlp_dim
                     }
                     else if (j < 2*nb[i] + 2*ng[i])
                     {
-                        blasfeo_dcolex(nx[i] + nu[i], mem->qp_in->DCt+i, j - 2*nb[i] - ng[i], 0, &tmp_vec_nxu, 0);
+                        blasfeo_dcolex(nx[i] + nu[i], mem->qp_in->DCt+i, 0, j - 2*nb[i] - ng[i], &tmp_vec_nxu, 0);
                         merit_grad_ineq += weight * blasfeo_ddot(nx[i] + nu[i], &tmp_vec_nxu, 0, mem->qp_out->ux+i, 0);
                         // printf("general linear constraint upper contribution = %e, val = %e\n", blasfeo_ddot(nx[i] + nu[i], &tmp_vec_nxu, 0, mem->qp_out->ux+i, 0), constraint_val);
                     }
-- 
2.43.0


From 03ffc14ffd369d1650c473ddd77d83c3d67433c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:58 +0000
Subject: [PATCH 54/66] fix: generated code ignored
 globalization_eps_sufficient_descent and
 globalization_funnel_fraction_switching_condition for the funnel
 globalization

---
 .../c_templates_tera/acados_multi_solver.in.c               | 6 ++++++
 .../acados_template/c_templates_tera/acados_solver.in.c     | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/interfaces/acados_template/acados_template/c_templates_tera/acados_multi_solver.in.c b/interfaces/acados_template/acados_template/c_templates_tera/acados_multi_solver.in.c
index b0241cf..7668e41 100644
--- a/interfaces/acados_template/acados_template/c_templates_tera/acados_multi_solver.in.c
+++ b/interfaces/acados_template/acados_template/c_templates_tera/acados_multi_solver.in.c
@@ -2451,6 +2451,12 @@ void {{ name }}_acados_create_set_opts({{ name }}_solver_capsule* capsule)
     double globalization_funnel_sufficient_decrease_factor = {{ solver_options.globalization_funnel_sufficient_decrease_factor }};
     ocp_nlp_solver_opts_set(nlp_config, nlp_opts, "globalization_funnel_sufficient_decrease_factor", &globalization_funnel_sufficient_decrease_factor);
 
+    double globalization_eps_sufficient_descent = {{ solver_options.globalization_eps_sufficient_descent }};
+    ocp_nlp_solver_opts_set(nlp_config, nlp_opts, "globalization_eps_sufficient_descent", &globalization_eps_sufficient_descent);
+
+    double globalization_funnel_fraction_switching_condition = {{ solver_options.globalization_funnel_fraction_switching_condition }};
+    ocp_nlp_solver_opts_set(nlp_config, nlp_opts, "globalization_funnel_fraction_switching_condition", &globalization_funnel_fraction_switching_condition);
+
     double globalization_funnel_kappa = {{ solver_options.globalization_funnel_kappa }};
     ocp_nlp_solver_opts_set(nlp_config, nlp_opts, "globalization_funnel_kappa", &globalization_funnel_kappa);
 
diff --git a/interfaces/acados_template/acados_template/c_templates_tera/acados_solver.in.c b/interfaces/acados_template/acados_template/c_templates_tera/acados_solver.in.c
index a5f49e2..2971d6a 100644
--- a/interfaces/acados_template/acados_template/c_templates_tera/acados_solver.in.c
+++ b/interfaces/acados_template/acados_template/c_templates_tera/acados_solver.in.c
@@ -2577,6 +2577,12 @@ static void {{ name }}_acados_create_set_opts({{ name }}_solver_capsule* capsule
     double globalization_funnel_sufficient_decrease_factor = {{ solver_options.globalization_funnel_sufficient_decrease_factor }};
     ocp_nlp_solver_opts_set(nlp_config, nlp_opts, "globalization_funnel_sufficient_decrease_factor", &globalization_funnel_sufficient_decrease_factor);
 
+    double globalization_eps_sufficient_descent = {{ solver_options.globalization_eps_sufficient_descent }};
+    ocp_nlp_solver_opts_set(nlp_config, nlp_opts, "globalization_eps_sufficient_descent", &globalization_eps_sufficient_descent);
+
+    double globalization_funnel_fraction_switching_condition = {{ solver_options.globalization_funnel_fraction_switching_condition }};
+    ocp_nlp_solver_opts_set(nlp_config, nlp_opts, "globalization_funnel_fraction_switching_condition", &globalization_funnel_fraction_switching_condition);
+
     double globalization_funnel_kappa = {{ solver_options.globalization_funnel_kappa }};
     ocp_nlp_solver_opts_set(nlp_config, nlp_opts, "globalization_funnel_kappa", &globalization_funnel_kappa);
 
-- 
2.43.0


From 632342306c57959099314ae84a2e4ea71e9c5bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:11 +0000
Subject: [PATCH 55/66] fix: merit and funnel globalization: trial points with
 NaN constraint or cost values could be accepted

---
 acados/ocp_nlp/ocp_nlp_common.c                           | 2 +-
 acados/ocp_nlp/ocp_nlp_globalization_funnel.c             | 6 ++++++
 acados/ocp_nlp/ocp_nlp_globalization_merit_backtracking.c | 2 +-
 3 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/acados/ocp_nlp/ocp_nlp_common.c b/acados/ocp_nlp/ocp_nlp_common.c
index 65acabe..22ad5d2 100644
--- a/acados/ocp_nlp/ocp_nlp_common.c
+++ b/acados/ocp_nlp/ocp_nlp_common.c
@@ -2729,7 +2729,7 @@ double ocp_nlp_get_l1_infeasibility(ocp_nlp_config *config, ocp_nlp_dims *dims,
         for (j=0; j<2*ni[i]; j++)
         {
             tmp = BLASFEO_DVECEL(tmp_fun_vec, j);
-            if (tmp > 0.0)
+            if (!(tmp <= 0.0)) // NaN is a violation
             {
                 constraint_l1_infeasibility += tmp;
             }
diff --git a/acados/ocp_nlp/ocp_nlp_globalization_funnel.c b/acados/ocp_nlp/ocp_nlp_globalization_funnel.c
index a9bc93c..c3b5970 100644
--- a/acados/ocp_nlp/ocp_nlp_globalization_funnel.c
+++ b/acados/ocp_nlp/ocp_nlp_globalization_funnel.c
@@ -342,6 +342,12 @@ bool is_trial_iterate_acceptable_to_funnel(ocp_nlp_globalization_funnel_memory *
     print_debug_output_double("predicted_reduction_infeasibility", predicted_reduction_infeasibility, nlp_opts->print_level, 2);
     print_debug_output_double("predicted_reduction_merit", predicted_reduction_merit, nlp_opts->print_level, 2);
 
+    if (!isfinite(trial_objective) || !isfinite(trial_infeasibility))
+    {
+        print_debug_output("Trial iterate cannot be evaluated\n", nlp_opts->print_level, 1);
+        return false;
+    }
+
     if (opts->use_merit_fun_only) // We only check the penalty method but not the funnel!
     {
         mem->funnel_penalty_mode = true;
diff --git a/acados/ocp_nlp/ocp_nlp_globalization_merit_backtracking.c b/acados/ocp_nlp/ocp_nlp_globalization_merit_backtracking.c
index a3c295d..8cf5af4 100644
--- a/acados/ocp_nlp/ocp_nlp_globalization_merit_backtracking.c
+++ b/acados/ocp_nlp/ocp_nlp_globalization_merit_backtracking.c
@@ -685,7 +685,7 @@ double ocp_nlp_evaluate_merit_fun(ocp_nlp_config *config, ocp_nlp_dims *dims,
         for (int j=0; j<2*ni[i]; j++)
         {
             tmp = BLASFEO_DVECEL(tmp_fun_vec, j);
-            if (tmp > 0.0)
+            if (!(tmp <= 0.0)) // NaN is a violation
             {
                 // tmp = constraint violation
                 // printf("IN merit fun: ineq i %d, j %d tmp_fun %e, multiplier %e\n", i, j, tmp, BLASFEO_DVECEL(work->weight_merit_fun->lam+i, j));
-- 
2.43.0


From b1c48b3c916edfb038d076bd6f36ac11eb3bbf3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:03 +0000
Subject: [PATCH 56/66] fix: generated code with adjoint parametric
 sensitivities and terminal constraint did not compile

---
 .../acados_template/c_templates_tera/acados_solver.in.h         | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/interfaces/acados_template/acados_template/c_templates_tera/acados_solver.in.h b/interfaces/acados_template/acados_template/c_templates_tera/acados_solver.in.h
index fff2fbd..346e605 100644
--- a/interfaces/acados_template/acados_template/c_templates_tera/acados_solver.in.h
+++ b/interfaces/acados_template/acados_template/c_templates_tera/acados_solver.in.h
@@ -276,7 +276,7 @@ typedef struct {{ name }}_solver_capsule
     external_function_external_param_casadi nl_constr_h_e_jac_p_hess_xu_p;
 {%- endif %}
 {% if code_gen_options.with_solution_sens_wrt_params_adj %}
-    external_function_external_param_casadi nl_constr_h_hess_ux_pdiff_adj_pdiff;
+    external_function_external_param_casadi nl_constr_h_e_hess_ux_pdiff_adj_pdiff;
 {%- endif %}
 {% if code_gen_options.with_value_sens_wrt_params %}
     external_function_external_param_casadi nl_constr_h_e_adj_p;
-- 
2.43.0


From d4ee5f8dcb6e14407db1b139840a134093eeb51d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:15 +0000
Subject: [PATCH 57/66] fix: value gradient, value Hessian and slack
 sensitivities used twice the number of slacks

---
 .../acados_template/acados_ocp_batch_solver.py       |  4 ++--
 .../acados_template/acados_ocp_solver.py             | 12 ++++++------
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/interfaces/acados_template/acados_template/acados_ocp_batch_solver.py b/interfaces/acados_template/acados_template/acados_ocp_batch_solver.py
index 6e67207..c16a1c3 100644
--- a/interfaces/acados_template/acados_template/acados_ocp_batch_solver.py
+++ b/interfaces/acados_template/acados_template/acados_ocp_batch_solver.py
@@ -434,12 +434,12 @@ class AcadosOcpBatchSolver():
 
             if return_sens_sl:
                 ns = self.__acados_lib.ocp_nlp_dims_get_from_attr(
-                    solver0.nlp_config, solver0.nlp_dims, solver0.nlp_out, s, "s".encode('utf-8'))
+                    solver0.nlp_config, solver0.nlp_dims, solver0.nlp_out, s, "sl".encode('utf-8'))
                 sens_sl.append(np.zeros((n_batch, ns, ngrad), dtype=np.float64, order="C"))
 
             if return_sens_su:
                 ns = self.__acados_lib.ocp_nlp_dims_get_from_attr(
-                    solver0.nlp_config, solver0.nlp_dims, solver0.nlp_out, s, "s".encode('utf-8'))
+                    solver0.nlp_config, solver0.nlp_dims, solver0.nlp_out, s, "sl".encode('utf-8'))
                 sens_su.append(np.zeros((n_batch, ns, ngrad), dtype=np.float64, order="C"))
 
             if s < N_horizon:
diff --git a/interfaces/acados_template/acados_template/acados_ocp_solver.py b/interfaces/acados_template/acados_template/acados_ocp_solver.py
index e800bf4..e418b8d 100644
--- a/interfaces/acados_template/acados_template/acados_ocp_solver.py
+++ b/interfaces/acados_template/acados_template/acados_ocp_solver.py
@@ -810,7 +810,7 @@ class AcadosOcpSolver:
 
             nx = self.__acados_lib.ocp_nlp_dims_get_from_attr(self.nlp_config, self.nlp_dims, self.nlp_out, 0, "x".encode('utf-8'))
             nbu = self.__acados_lib.ocp_nlp_dims_get_from_attr(self.nlp_config, self.nlp_dims, self.nlp_out, 0, "lbu".encode('utf-8'))
-            ns = self.__acados_lib.ocp_nlp_dims_get_from_attr(self.nlp_config, self.nlp_dims, self.nlp_out, 0, "s".encode('utf-8'))
+            ns = self.__acados_lib.ocp_nlp_dims_get_from_attr(self.nlp_config, self.nlp_dims, self.nlp_out, 0, "sl".encode('utf-8'))
 
             lam = self.get(0, 'lam')
             nlam_non_slack = lam.shape[0]//2 - ns
@@ -819,7 +819,7 @@ class AcadosOcpSolver:
         elif with_respect_to == "initial_control":
             nu = self.__acados_lib.ocp_nlp_dims_get_from_attr(self.nlp_config, self.nlp_dims, self.nlp_out, 0, "u".encode('utf-8'))
             nbu = self.__acados_lib.ocp_nlp_dims_get_from_attr(self.nlp_config, self.nlp_dims, self.nlp_out, 0, "lbu".encode('utf-8'))
-            ns = self.__acados_lib.ocp_nlp_dims_get_from_attr(self.nlp_config, self.nlp_dims, self.nlp_out, 0, "s".encode('utf-8'))
+            ns = self.__acados_lib.ocp_nlp_dims_get_from_attr(self.nlp_config, self.nlp_dims, self.nlp_out, 0, "sl".encode('utf-8'))
             lbu = self.get_from_qp_in(0, 'lbu')
             ubu = self.get_from_qp_in(0, 'ubu')
 
@@ -872,7 +872,7 @@ class AcadosOcpSolver:
             # lbu lbx lg lh lphi ubu ubx ug uh uphi
             nx = self.__acados_lib.ocp_nlp_dims_get_from_attr(self.nlp_config, self.nlp_dims, self.nlp_out, 0, "x".encode('utf-8'))
             nbu = self.__acados_lib.ocp_nlp_dims_get_from_attr(self.nlp_config, self.nlp_dims, self.nlp_out, 0, "lbu".encode('utf-8'))
-            ns = self.__acados_lib.ocp_nlp_dims_get_from_attr(self.nlp_config, self.nlp_dims, self.nlp_out, 0, "s".encode('utf-8'))
+            ns = self.__acados_lib.ocp_nlp_dims_get_from_attr(self.nlp_config, self.nlp_dims, self.nlp_out, 0, "sl".encode('utf-8'))
 
             nlam = self.__acados_lib.ocp_nlp_dims_get_from_attr(self.nlp_config, self.nlp_dims, self.nlp_out, 0, "lam".encode('utf-8'))
             nlam_non_slack = nlam // 2 - ns
@@ -881,7 +881,7 @@ class AcadosOcpSolver:
 
         # elif with_respect_to == "initial_control":
         #     nbu = self.__acados_lib.ocp_nlp_dims_get_from_attr(self.nlp_config, self.nlp_dims, self.nlp_out, 0, "lbu".encode('utf-8'))
-        #     ns = self.__acados_lib.ocp_nlp_dims_get_from_attr(self.nlp_config, self.nlp_dims, self.nlp_out, 0, "s".encode('utf-8'))
+        #     ns = self.__acados_lib.ocp_nlp_dims_get_from_attr(self.nlp_config, self.nlp_dims, self.nlp_out, 0, "sl".encode('utf-8'))
 
         #     nlam = self.__acados_lib.ocp_nlp_dims_get_from_attr(self.nlp_config, self.nlp_dims, self.nlp_out, 0, "lam".encode('utf-8'))
         #     nlam_non_slack = nlam // 2 - ns
@@ -1001,11 +1001,11 @@ class AcadosOcpSolver:
                 sens_lam.append(np.zeros((nlam, ngrad)))
 
             if return_sens_sl:
-                ns = self.__acados_lib.ocp_nlp_dims_get_from_attr(self.nlp_config, self.nlp_dims, self.nlp_out, s, "s".encode('utf-8'))
+                ns = self.__acados_lib.ocp_nlp_dims_get_from_attr(self.nlp_config, self.nlp_dims, self.nlp_out, s, "sl".encode('utf-8'))
                 sens_sl.append(np.zeros((ns, ngrad)))
 
             if return_sens_su:
-                ns = self.__acados_lib.ocp_nlp_dims_get_from_attr(self.nlp_config, self.nlp_dims, self.nlp_out, s, "s".encode('utf-8'))
+                ns = self.__acados_lib.ocp_nlp_dims_get_from_attr(self.nlp_config, self.nlp_dims, self.nlp_out, s, "sl".encode('utf-8'))
                 sens_su.append(np.zeros((ns, ngrad)))
 
             if s < self.N:
-- 
2.43.0


From a6b48492e22ec2360f9bababa66593733eb39508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:41 +0000
Subject: [PATCH 58/66] fix: forward parametric solution sensitivities: wrong
 sign of the mixed second derivative of nonlinear constraints

---
 acados/ocp_nlp/ocp_nlp_constraints_bgh.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acados/ocp_nlp/ocp_nlp_constraints_bgh.c b/acados/ocp_nlp/ocp_nlp_constraints_bgh.c
index ab948bd..2009857 100644
--- a/acados/ocp_nlp/ocp_nlp_constraints_bgh.c
+++ b/acados/ocp_nlp/ocp_nlp_constraints_bgh.c
@@ -1826,7 +1826,7 @@ void ocp_nlp_constraints_bgh_compute_jac_hess_p(void *config_, void *dims_, void
                     ext_fun_type_in, ext_fun_in, ext_fun_type_out, ext_fun_out);
 
         // add constraint contribution to stationarity jacobian wrt p_global
-        blasfeo_dgead(nx+nu, np_global, -1.0, &work->jac_lag_p_global, 0, 0, memory->jac_lag_stat_p_global, 0, 0);
+        blasfeo_dgead(nx+nu, np_global, 1.0, &work->jac_lag_p_global, 0, 0, memory->jac_lag_stat_p_global, 0, 0);
     }
 }
 
-- 
2.43.0


From b6a3a9ee87a5f6473f8585be2f52912ff24e6469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:41 +0000
Subject: [PATCH 59/66] fix: value gradient w.r.t. global parameters ignored
 the terminal constraints

---
 acados/ocp_nlp/ocp_nlp_common.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/acados/ocp_nlp/ocp_nlp_common.c b/acados/ocp_nlp/ocp_nlp_common.c
index 22ad5d2..6ca26cb 100644
--- a/acados/ocp_nlp/ocp_nlp_common.c
+++ b/acados/ocp_nlp/ocp_nlp_common.c
@@ -4209,7 +4209,7 @@ void ocp_nlp_common_eval_lagr_grad_p(ocp_nlp_config *config, ocp_nlp_dims *dims,
             blasfeo_dvecad(np_global, 1., &work->tmp_np_global, 0, &mem->out_np_global, 0);
 
             // constraints contribution
-            config->constraints[i]->compute_adj_p(config->constraints[i], dims->constraints[i], in->constraints[i], opts,
+            config->constraints[i]->compute_adj_p(config->constraints[i], dims->constraints[i], in->constraints[i], opts->constraints[i],
                                     mem->constraints[i], work->constraints[i], &work->tmp_np_global);
 
             blasfeo_dvecad(np_global, 1., &work->tmp_np_global, 0, &mem->out_np_global, 0);
@@ -4220,6 +4220,11 @@ void ocp_nlp_common_eval_lagr_grad_p(ocp_nlp_config *config, ocp_nlp_dims *dims,
                                     mem->cost[N], work->cost[N], &work->tmp_np_global);
         blasfeo_dvecad(np_global, 1., &work->tmp_np_global, 0, &mem->out_np_global, 0);
 
+        // terminal constraints contribution
+        config->constraints[N]->compute_adj_p(config->constraints[N], dims->constraints[N], in->constraints[N], opts->constraints[N],
+                                    mem->constraints[N], work->constraints[N], &work->tmp_np_global);
+        blasfeo_dvecad(np_global, 1., &work->tmp_np_global, 0, &mem->out_np_global, 0);
+
         blasfeo_unpack_dvec(np_global, &mem->out_np_global, 0, grad_p, 1);
     }
     else
-- 
2.43.0


From 574ad603cf771426d871c5a25eeb3eaa45831d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:30 +0000
Subject: [PATCH 60/66] fix: eval_solution_sensitivity: wrong or missing u and
 pi entries if the terminal stage is not the last requested one

---
 .../acados_template/acados_ocp_batch_solver.py        | 11 +++++++----
 .../acados_template/acados_ocp_solver.py              | 11 +++++++----
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/interfaces/acados_template/acados_template/acados_ocp_batch_solver.py b/interfaces/acados_template/acados_template/acados_ocp_batch_solver.py
index c16a1c3..edfa689 100644
--- a/interfaces/acados_template/acados_template/acados_ocp_batch_solver.py
+++ b/interfaces/acados_template/acados_template/acados_ocp_batch_solver.py
@@ -461,6 +461,7 @@ class AcadosOcpBatchSolver():
             )
 
             # Extract sensitivities for requested stages.
+            n_u = 0
             for n, s in enumerate(stages_):
                 if return_sens_x:
                     sens_x[n][:, :, k] = self.get(s, "sens_x", n_batch=n_batch)
@@ -472,10 +473,12 @@ class AcadosOcpBatchSolver():
                     sens_su[n][:, :, k] = self.get(s, "sens_su", n_batch=n_batch)
 
                 if s < N_horizon:
+                    # the lists for u and pi have no entry for the terminal stage
                     if return_sens_u:
-                        sens_u[n][:, :, k] = self.get(s, "sens_u", n_batch=n_batch)
+                        sens_u[n_u][:, :, k] = self.get(s, "sens_u", n_batch=n_batch)
                     if return_sens_pi:
-                        sens_pi[n][:, :, k] = self.get(s, "sens_pi", n_batch=n_batch)
+                        sens_pi[n_u][:, :, k] = self.get(s, "sens_pi", n_batch=n_batch)
+                    n_u += 1
 
         self.time_solution_sens_solve = time.time() - t0
 
@@ -485,10 +488,10 @@ class AcadosOcpBatchSolver():
             out["sens_x"] = sens_x if stages_is_list else sens_x[0]
 
         if return_sens_u:
-            out["sens_u"] = sens_u if stages_is_list else sens_u[0]
+            out["sens_u"] = sens_u if stages_is_list else (sens_u[0] if sens_u else np.zeros((n_batch, 0, ngrad)))
 
         if return_sens_pi:
-            out["sens_pi"] = sens_pi if stages_is_list else sens_pi[0]
+            out["sens_pi"] = sens_pi if stages_is_list else (sens_pi[0] if sens_pi else np.zeros((n_batch, 0, ngrad)))
 
         if return_sens_lam:
             out["sens_lam"] = sens_lam if stages_is_list else sens_lam[0]
diff --git a/interfaces/acados_template/acados_template/acados_ocp_solver.py b/interfaces/acados_template/acados_template/acados_ocp_solver.py
index e418b8d..883c744 100644
--- a/interfaces/acados_template/acados_template/acados_ocp_solver.py
+++ b/interfaces/acados_template/acados_template/acados_ocp_solver.py
@@ -1026,6 +1026,7 @@ class AcadosOcpSolver:
             self.time_solution_sens_solve += self.get_stats("time_solution_sensitivities")
 
             # extract sensitivities
+            n_u = 0
             for n, s in enumerate(stages_):
 
                 if return_sens_x:
@@ -1038,10 +1039,12 @@ class AcadosOcpSolver:
                     sens_su[n][:, k] = self.get(s, "sens_su")
 
                 if s < self.N:
+                    # the lists for u and pi have no entry for the terminal stage
                     if return_sens_u:
-                        sens_u[n][:, k] = self.get(s, "sens_u")
+                        sens_u[n_u][:, k] = self.get(s, "sens_u")
                     if return_sens_pi:
-                        sens_pi[n][:, k] = self.get(s, "sens_pi")
+                        sens_pi[n_u][:, k] = self.get(s, "sens_pi")
+                    n_u += 1
 
         out = {}
 
@@ -1049,10 +1052,10 @@ class AcadosOcpSolver:
             out["sens_x"] = sens_x if stages_is_list else sens_x[0]
 
         if return_sens_u:
-            out["sens_u"] = sens_u if stages_is_list else sens_u[0]
+            out["sens_u"] = sens_u if stages_is_list else (sens_u[0] if sens_u else np.zeros((0, ngrad)))
 
         if return_sens_pi:
-            out["sens_pi"] = sens_pi if stages_is_list else sens_pi[0]
+            out["sens_pi"] = sens_pi if stages_is_list else (sens_pi[0] if sens_pi else np.zeros((0, ngrad)))
 
         if return_sens_lam:
             out["sens_lam"] = sens_lam if stages_is_list else sens_lam[0]
-- 
2.43.0


From 60deda7aae65309b3211ed0c39d4896e54095f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:53 +0000
Subject: [PATCH 61/66] fix: reset did not discard the previous QP solution, so
 warm started first QPs depended on the calls before the reset

---
 acados/ocp_qp/ocp_qp_common.h             |  1 +
 acados/ocp_qp/ocp_qp_full_condensing.c    | 15 +++++++++++++++
 acados/ocp_qp/ocp_qp_partial_condensing.c |  9 +++++++++
 acados/ocp_qp/ocp_qp_xcond_solver.c       |  3 +++
 4 files changed, 28 insertions(+)

diff --git a/acados/ocp_qp/ocp_qp_common.h b/acados/ocp_qp/ocp_qp_common.h
index 91218ed..68dbc22 100644
--- a/acados/ocp_qp/ocp_qp_common.h
+++ b/acados/ocp_qp/ocp_qp_common.h
@@ -96,6 +96,7 @@ typedef struct
     acados_size_t (*memory_calculate_size)(void *dims, void *opts);
     void *(*memory_assign)(void *dims, void *opts, void *raw_memory);
     void (*memory_get)(void *config, void *mem, const char *field, void* value);
+    void (*memory_reset_qp_out)(void *mem);
     acados_size_t (*workspace_calculate_size)(void *dims, void *opts);
     int (*condensing)(void *qp_in, void *x_cond_qp_in, void *opts, void *mem, void *work);
     int (*condense_rhs)(void *qp_in, void *x_cond_qp_in, void *opts, void *mem, void *work);
diff --git a/acados/ocp_qp/ocp_qp_full_condensing.c b/acados/ocp_qp/ocp_qp_full_condensing.c
index fa3560f..d7aa2cd 100644
--- a/acados/ocp_qp/ocp_qp_full_condensing.c
+++ b/acados/ocp_qp/ocp_qp_full_condensing.c
@@ -430,6 +430,20 @@ void ocp_qp_full_condensing_memory_get(void *config_, void *mem_, const char *fi
 
 
 
+void ocp_qp_full_condensing_memory_reset_qp_out(void *mem_)
+{
+    ocp_qp_full_condensing_memory *mem = mem_;
+    dense_qp_out *qp_out = mem->fcond_qp_out;
+    int ni = qp_out->dim->nb + qp_out->dim->ng + qp_out->dim->ns;
+
+    blasfeo_dvecse(qp_out->dim->nv + 2 * qp_out->dim->ns, 0.0, qp_out->v, 0);
+    blasfeo_dvecse(qp_out->dim->ne, 0.0, qp_out->pi, 0);
+    blasfeo_dvecse(2 * ni, 0.0, qp_out->lam, 0);
+    blasfeo_dvecse(2 * ni, 0.0, qp_out->t, 0);
+}
+
+
+
 /************************************************
  * workspace
  ************************************************/
@@ -658,6 +672,7 @@ void ocp_qp_full_condensing_config_initialize_default(void *config_)
     config->memory_calculate_size = &ocp_qp_full_condensing_memory_calculate_size;
     config->memory_assign = &ocp_qp_full_condensing_memory_assign;
     config->memory_get = &ocp_qp_full_condensing_memory_get;
+    config->memory_reset_qp_out = &ocp_qp_full_condensing_memory_reset_qp_out;
     config->workspace_calculate_size = &ocp_qp_full_condensing_workspace_calculate_size;
     config->condensing = &ocp_qp_full_condensing;
     config->condense_rhs = &ocp_qp_full_condensing_condense_rhs;
diff --git a/acados/ocp_qp/ocp_qp_partial_condensing.c b/acados/ocp_qp/ocp_qp_partial_condensing.c
index 095dcb6..ef37489 100644
--- a/acados/ocp_qp/ocp_qp_partial_condensing.c
+++ b/acados/ocp_qp/ocp_qp_partial_condensing.c
@@ -508,6 +508,14 @@ void ocp_qp_partial_condensing_memory_get(void *config_, void *mem_, const char
 
 
 
+void ocp_qp_partial_condensing_memory_reset_qp_out(void *mem_)
+{
+    ocp_qp_partial_condensing_memory *mem = mem_;
+    ocp_qp_out_set_to_zero(mem->pcond_qp_out);
+}
+
+
+
 /************************************************
  * workspace
  ************************************************/
@@ -735,6 +743,7 @@ void ocp_qp_partial_condensing_config_initialize_default(void *config_)
     config->memory_calculate_size = &ocp_qp_partial_condensing_memory_calculate_size;
     config->memory_assign = &ocp_qp_partial_condensing_memory_assign;
     config->memory_get = &ocp_qp_partial_condensing_memory_get;
+    config->memory_reset_qp_out = &ocp_qp_partial_condensing_memory_reset_qp_out;
     config->workspace_calculate_size = &ocp_qp_partial_condensing_workspace_calculate_size;
     config->condensing = &ocp_qp_partial_condensing;
     config->condense_lhs = &ocp_qp_partial_condensing_condense_lhs;
diff --git a/acados/ocp_qp/ocp_qp_xcond_solver.c b/acados/ocp_qp/ocp_qp_xcond_solver.c
index c9c342d..8b0b584 100644
--- a/acados/ocp_qp/ocp_qp_xcond_solver.c
+++ b/acados/ocp_qp/ocp_qp_xcond_solver.c
@@ -408,6 +408,9 @@ void ocp_qp_xcond_solver_memory_reset(void *config_, ocp_qp_xcond_solver_dims *d
 
     mem->solver_memory = qp_solver->memory_assign(qp_solver, xcond_qp_dims, opts->qp_solver_opts, mem->solver_memory);
 
+    // discard the previous solution, which initializes the next QP if it is warm started
+    xcond->memory_reset_qp_out(mem->xcond_memory);
+
     return;
 }
 
-- 
2.43.0


From a7da27f209d7f618cb7ace83d2092138166a7511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:50 +0000
Subject: [PATCH 62/66] fix: options warm_start_first_qp, qp_warm_start and
 tau_min: reset did not restore defaults, warm_start_first_qp was ignored for
 multi-phase problems

---
 .../c_templates_tera/acados_multi_solver.in.c      | 14 +++++---------
 .../c_templates_tera/acados_solver.in.c            | 12 ++++--------
 2 files changed, 9 insertions(+), 17 deletions(-)

diff --git a/interfaces/acados_template/acados_template/c_templates_tera/acados_multi_solver.in.c b/interfaces/acados_template/acados_template/c_templates_tera/acados_multi_solver.in.c
index 7668e41..50382a0 100644
--- a/interfaces/acados_template/acados_template/c_templates_tera/acados_multi_solver.in.c
+++ b/interfaces/acados_template/acados_template/c_templates_tera/acados_multi_solver.in.c
@@ -2482,15 +2482,11 @@ void {{ name }}_acados_create_set_opts({{ name }}_solver_capsule* capsule)
     int globalization_full_step_dual = {{ solver_options.globalization_full_step_dual }};
     ocp_nlp_solver_opts_set(nlp_config, capsule->nlp_opts, "globalization_full_step_dual", &globalization_full_step_dual);
 
-    {%- if solver_options.nlp_solver_warm_start_first_qp_from_nlp %}
-    int nlp_solver_warm_start_first_qp = {{ solver_options.nlp_solver_warm_start_first_qp }};
+    bool nlp_solver_warm_start_first_qp = {{ solver_options.nlp_solver_warm_start_first_qp }};
     ocp_nlp_solver_opts_set(nlp_config, nlp_opts, "warm_start_first_qp", &nlp_solver_warm_start_first_qp);
-    {%- endif %}
 
-    {%- if solver_options.nlp_solver_warm_start_first_qp_from_nlp %}
-    int nlp_solver_warm_start_first_qp_from_nlp = {{ solver_options.nlp_solver_warm_start_first_qp_from_nlp }};
-    ocp_nlp_solver_opts_set(nlp_config, nlp_opts, "warm_start_first_qp", &nlp_solver_warm_start_first_qp_from_nlp);
-    {%- endif %}
+    bool nlp_solver_warm_start_first_qp_from_nlp = {{ solver_options.nlp_solver_warm_start_first_qp_from_nlp }};
+    ocp_nlp_solver_opts_set(nlp_config, nlp_opts, "warm_start_first_qp_from_nlp", &nlp_solver_warm_start_first_qp_from_nlp);
 
     double levenberg_marquardt = {{ solver_options.levenberg_marquardt }};
     ocp_nlp_solver_opts_set(nlp_config, nlp_opts, "levenberg_marquardt", &levenberg_marquardt);
@@ -2564,7 +2560,7 @@ void {{ name }}_acados_create_set_opts({{ name }}_solver_capsule* capsule)
     ocp_nlp_solver_opts_set(nlp_config, nlp_opts, "qp_t0_init", &qp_solver_t0_init);
 {%- endif %}
 
-{% if solver_options.tau_min > 0 %}
+{% if solver_options.tau_min > 0 or solver_options.qp_solver is containing("HPIPM") %}
     double tau_min = {{ solver_options.tau_min }};
     ocp_nlp_solver_opts_set(nlp_config, nlp_opts, "tau_min", &tau_min);
 {%- endif %}
@@ -2706,7 +2702,7 @@ ocp_nlp_solver_opts_set(nlp_config, nlp_opts, "allow_direction_mode_switch_to_no
     ocp_nlp_solver_opts_set(nlp_config, nlp_opts, "qp_tol_comp", &qp_solver_tol_comp);
     {%- endif %}
 
-    {%- if solver_options.qp_solver_warm_start %}
+    {%- if solver_options.qp_solver_warm_start or solver_options.qp_solver is containing("HPIPM") %}
     int qp_solver_warm_start = {{ solver_options.qp_solver_warm_start }};
     ocp_nlp_solver_opts_set(nlp_config, nlp_opts, "qp_warm_start", &qp_solver_warm_start);
     {%- endif %}
diff --git a/interfaces/acados_template/acados_template/c_templates_tera/acados_solver.in.c b/interfaces/acados_template/acados_template/c_templates_tera/acados_solver.in.c
index 2971d6a..d32744c 100644
--- a/interfaces/acados_template/acados_template/c_templates_tera/acados_solver.in.c
+++ b/interfaces/acados_template/acados_template/c_templates_tera/acados_solver.in.c
@@ -2735,15 +2735,11 @@ static void {{ name }}_acados_create_set_opts({{ name }}_solver_capsule* capsule
 {%- endif %}{# solver_options.integrator_type != "DISCRETE" #}
 {%- endif %}{# solver_options.N_horizon > 0 #}
 
-    {%- if solver_options.nlp_solver_warm_start_first_qp %}
-    int nlp_solver_warm_start_first_qp = {{ solver_options.nlp_solver_warm_start_first_qp }};
+    bool nlp_solver_warm_start_first_qp = {{ solver_options.nlp_solver_warm_start_first_qp }};
     ocp_nlp_solver_opts_set(nlp_config, nlp_opts, "warm_start_first_qp", &nlp_solver_warm_start_first_qp);
-    {%- endif %}
 
-    {%- if solver_options.nlp_solver_warm_start_first_qp_from_nlp %}
-    int nlp_solver_warm_start_first_qp_from_nlp = {{ solver_options.nlp_solver_warm_start_first_qp_from_nlp }};
+    bool nlp_solver_warm_start_first_qp_from_nlp = {{ solver_options.nlp_solver_warm_start_first_qp_from_nlp }};
     ocp_nlp_solver_opts_set(nlp_config, nlp_opts, "warm_start_first_qp_from_nlp", &nlp_solver_warm_start_first_qp_from_nlp);
-    {%- endif %}
 
     double levenberg_marquardt = {{ solver_options.levenberg_marquardt }};
     ocp_nlp_solver_opts_set(nlp_config, nlp_opts, "levenberg_marquardt", &levenberg_marquardt);
@@ -2796,7 +2792,7 @@ static void {{ name }}_acados_create_set_opts({{ name }}_solver_capsule* capsule
     ocp_nlp_solver_opts_set(nlp_config, nlp_opts, "qp_t0_init", &qp_solver_t0_init);
 {%- endif %}
 
-{% if solver_options.tau_min > 0 %}
+{% if solver_options.tau_min > 0 or solver_options.qp_solver is containing("HPIPM") %}
     double tau_min = {{ solver_options.tau_min }};
     ocp_nlp_solver_opts_set(nlp_config, nlp_opts, "tau_min", &tau_min);
 {%- endif %}
@@ -2938,7 +2934,7 @@ static void {{ name }}_acados_create_set_opts({{ name }}_solver_capsule* capsule
     ocp_nlp_solver_opts_set(nlp_config, nlp_opts, "qp_tol_comp", &qp_solver_tol_comp);
     {%- endif %}
 
-    {%- if solver_options.qp_solver_warm_start %}
+    {%- if solver_options.qp_solver_warm_start or solver_options.qp_solver is containing("HPIPM") %}
     int qp_solver_warm_start = {{ solver_options.qp_solver_warm_start }};
     ocp_nlp_solver_opts_set(nlp_config, nlp_opts, "qp_warm_start", &qp_solver_warm_start);
     {%- endif %}
-- 
2.43.0


From d9cbf4286b5a5e7609bf8933f3ed8aeda4c47a7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:50 +0000
Subject: [PATCH 63/66] fix: setting tau_min to zero had no effect on the QPs

---
 acados/dense_qp/dense_qp_hpipm.c | 8 +++-----
 acados/ocp_qp/ocp_qp_hpipm.c     | 8 +++-----
 2 files changed, 6 insertions(+), 10 deletions(-)

diff --git a/acados/dense_qp/dense_qp_hpipm.c b/acados/dense_qp/dense_qp_hpipm.c
index cc0e69e..8040c3c 100644
--- a/acados/dense_qp/dense_qp_hpipm.c
+++ b/acados/dense_qp/dense_qp_hpipm.c
@@ -310,11 +310,9 @@ int dense_qp_hpipm(void *config, void *qp_in_, void *qp_out_, void *opts_, void
     int ns = qp_in->dim->ns;
     blasfeo_dvecse(nv+2*ns, 0.0, qp_out->v, 0);
 
-    if (opts->m_relax)
-    {
-        d_dense_qp_set_m_all(&opts->m_relax, qp_in);
-        // d_dense_qp_ipm_arg_set("tau_min", &opts->m_relax, opts->hpipm_opts);
-    }
+    // also if zero: m_relax might have been set to zero after a previous call
+    d_dense_qp_set_m_all(&opts->m_relax, qp_in);
+    // d_dense_qp_ipm_arg_set("tau_min", &opts->m_relax, opts->hpipm_opts);
     /* use this to send some QPs to Gianluca :) */
     // printf("\ncodegen HPIPM QP\n");
     // d_dense_qp_dim_codegen("failing_dense_data.c", "w", qp_in->dim);
diff --git a/acados/ocp_qp/ocp_qp_hpipm.c b/acados/ocp_qp/ocp_qp_hpipm.c
index 1a570e7..b79bcd4 100644
--- a/acados/ocp_qp/ocp_qp_hpipm.c
+++ b/acados/ocp_qp/ocp_qp_hpipm.c
@@ -335,11 +335,9 @@ int ocp_qp_hpipm(void *config_, void *qp_in_, void *qp_out_, void *opts_, void *
         blasfeo_dvecse(nu[ii]+nx[ii]+2*ns[ii], 0.0, qp_out->ux+ii, 0);
     }
 
-    if (opts->m_relax)
-    {
-        d_ocp_qp_set_m_all(&opts->m_relax, qp_in);
-        // d_ocp_qp_ipm_arg_set("tau_min", &opts->m_relax, opts->hpipm_opts);
-    }
+    // also if zero: m_relax might have been set to zero after a previous call
+    d_ocp_qp_set_m_all(&opts->m_relax, qp_in);
+    // d_ocp_qp_ipm_arg_set("tau_min", &opts->m_relax, opts->hpipm_opts);
 
     // solve ipm
     acados_tic(&qp_timer);
-- 
2.43.0


From f2368a78e86a35bf2cbbbbf4e93218126f177606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:12 +0000
Subject: [PATCH 64/66] fix: objects of the model functions were not removed
 before a build, outdated ones could be linked if time stamps are not monotone

---
 .../acados_template/c_templates_tera/Makefile.in       | 10 +++++++++-
 .../acados_template/c_templates_tera/multi_Makefile.in |  2 +-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/interfaces/acados_template/acados_template/c_templates_tera/Makefile.in b/interfaces/acados_template/acados_template/c_templates_tera/Makefile.in
index 93efe84..60be940 100644
--- a/interfaces/acados_template/acados_template/c_templates_tera/Makefile.in
+++ b/interfaces/acados_template/acados_template/c_templates_tera/Makefile.in
@@ -331,6 +331,10 @@ clean_ocp_cython:
 {%- endif %}
 
 {% if solver_options.integrator_type != "DISCRETE" and N_horizon > 0 -%}
+clean_sim_shared_lib:
+	del \Q libacados_sim_solver_{{ name }}{{ code_gen_options.shared_lib_ext }} 2>nul
+	del \Q acados_sim_solver_{{ name }}.o 2>nul
+
 clean_sim_cython:
 	del \Q libacados_sim_solver_{{ name }}{{ code_gen_options.shared_lib_ext }} 2>nul
 	del \Q acados_sim_solver_{{ name }}.o 2>nul
@@ -354,7 +358,7 @@ clean:
 {%- if problem_class != "SIM" %}{# OCP related stuff#}
 clean_ocp_shared_lib:
 	$(RM) $(LIBACADOS_OCP_SOLVER)
-	$(RM) $(OCP_OBJ)
+	$(RM) $(OCP_OBJ) $(MODEL_OBJ)
 
 clean_ocp_cython:
 	$(RM) libacados_ocp_solver_{{ name }}{{ code_gen_options.shared_lib_ext }}
@@ -364,6 +368,10 @@ clean_ocp_cython:
 {%- endif %}
 
 {% if solver_options.integrator_type != "DISCRETE" and N_horizon > 0 -%}
+clean_sim_shared_lib:
+	$(RM) $(LIBACADOS_SIM_SOLVER)
+	$(RM) $(SIM_OBJ) $(MODEL_OBJ)
+
 clean_sim_cython:
 	$(RM) libacados_sim_solver_{{ name }}{{ code_gen_options.shared_lib_ext }}
 	$(RM) acados_sim_solver_{{ name }}.o
diff --git a/interfaces/acados_template/acados_template/c_templates_tera/multi_Makefile.in b/interfaces/acados_template/acados_template/c_templates_tera/multi_Makefile.in
index c76d24f..8dec7f5 100644
--- a/interfaces/acados_template/acados_template/c_templates_tera/multi_Makefile.in
+++ b/interfaces/acados_template/acados_template/c_templates_tera/multi_Makefile.in
@@ -397,7 +397,7 @@ clean:
 
 clean_ocp_shared_lib:
 	$(RM) $(LIBACADOS_OCP_SOLVER)
-	$(RM) $(OCP_OBJ)
+	$(RM) $(OCP_OBJ) $(MODEL_OBJ)
 
 clean_ocp_cython:
 	$(RM) libacados_ocp_solver_{{ name }}{{ code_gen_options.shared_lib_ext }}
-- 
2.43.0


From 79fc38ed435cb34d6d6214526b69a2dace92347a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:12 +0000
Subject: [PATCH 65/66] fix: solvers could be created from the library of
 another formulation after failed or interrupted code generations and builds

The hash that allows code reuse was stored before the code was generated, the exit code of make was ignored, and
libraries of outdated code were left in place. AcadosSimSolver did not even remove them before a build.
---
 .../acados_template/acados_multiphase_ocp.py  |  8 ++++--
 .../acados_template/acados_ocp.py             | 11 ++++++--
 .../acados_template/acados_ocp_solver.py      | 27 +++++++++++++-----
 .../acados_template/acados_sim.py             | 11 ++++++--
 .../acados_template/acados_sim_solver.py      | 28 ++++++++++++++-----
 .../acados_template/acados_template/utils.py  | 21 ++++++++++++++
 6 files changed, 86 insertions(+), 20 deletions(-)

diff --git a/interfaces/acados_template/acados_template/acados_multiphase_ocp.py b/interfaces/acados_template/acados_template/acados_multiphase_ocp.py
index 29b5232..3f0b5fc 100644
--- a/interfaces/acados_template/acados_template/acados_multiphase_ocp.py
+++ b/interfaces/acados_template/acados_template/acados_multiphase_ocp.py
@@ -588,15 +588,19 @@ class AcadosMultiphaseOcp:
         return ocp_dict
 
 
-    def dump_to_json(self) -> None:
+    def dump_to_json(self, code_complete: bool = False) -> None:
         """
         Dumps the OCP description in JSON format to AcadosOcp.json_file.
 
         NOTE: Please make sure to call `AcadosOcp.make_consistent()` before dumping to json.
+
+        :param code_complete: indicates that all code of this description has been generated.
+               Only then, the hash is stored, which allows to reuse the generated code.
         """
         # Get dict representation and create hash
         ocp_nlp_dict = self.to_dict()
-        ocp_nlp_dict['hash'] = hash_class_instance(self)
+        if code_complete:
+            ocp_nlp_dict['hash'] = hash_class_instance(self)
 
         with open(self.code_gen_options.json_file, 'w') as f:
             json.dump(ocp_nlp_dict, f, default=make_object_json_dumpable, indent=4, sort_keys=True)
diff --git a/interfaces/acados_template/acados_template/acados_ocp.py b/interfaces/acados_template/acados_template/acados_ocp.py
index 1402b8d..b752ed1 100644
--- a/interfaces/acados_template/acados_template/acados_ocp.py
+++ b/interfaces/acados_template/acados_template/acados_ocp.py
@@ -1605,7 +1605,13 @@ class AcadosOcp:
         return
 
 
-    def dump_to_json(self) -> None:
+    def dump_to_json(self, code_complete: bool = False) -> None:
+        """
+        Dumps the OCP description in JSON format to `code_gen_options.json_file`.
+
+        :param code_complete: indicates that all code of this description has been generated.
+               Only then, the hash is stored, which allows to reuse the generated code.
+        """
         dir_name = os.path.dirname(self.code_gen_options.json_file)
         if dir_name:
             os.makedirs(dir_name, exist_ok=True)
@@ -1614,7 +1620,8 @@ class AcadosOcp:
         ocp_dict = self.to_dict()
 
         # Create hash for code reuse detection (similar to MATLAB implementation)
-        ocp_dict['hash'] = hash_class_instance(self)
+        if code_complete:
+            ocp_dict['hash'] = hash_class_instance(self)
 
         with open(self.code_gen_options.json_file, 'w') as f:
             json.dump(ocp_dict, f, default=make_object_json_dumpable, indent=4, sort_keys=True)
diff --git a/interfaces/acados_template/acados_template/acados_ocp_solver.py b/interfaces/acados_template/acados_template/acados_ocp_solver.py
index 883c744..a09b3dc 100644
--- a/interfaces/acados_template/acados_template/acados_ocp_solver.py
+++ b/interfaces/acados_template/acados_template/acados_ocp_solver.py
@@ -54,7 +54,7 @@ from .acados_ocp import AcadosOcp
 from .acados_multiphase_ocp import AcadosMultiphaseOcp
 from .gnsf import detect_gnsf_structure
 from .utils import (get_shared_lib_ext, get_shared_lib_prefix, get_shared_lib_dir, get_shared_lib,
-                    make_object_json_dumpable, verbose_system_call,
+                    make_object_json_dumpable, verbose_system_call, run_build_command, remove_outdated_code, get_shared_lib_path,
                     acados_lib_is_compiled_with_openmp, set_directory, status_to_str, hash_class_instance,
                     compare_ocp_formulations)
 from .acados_ocp_iterate import AcadosOcpIterate, AcadosOcpIterates, AcadosOcpFlattenedIterate
@@ -153,6 +153,8 @@ class AcadosOcpSolver:
         if ocp.solver_options.qp_solver in ['FULL_CONDENSING_QPOASES', 'PARTIAL_CONDENSING_QPDUNES', 'PARTIAL_CONDENSING_OSQP']:
             print(f"NOTE: The selected QP solver {ocp.solver_options.qp_solver} does not support one-sided constraints yet.")
 
+        remove_outdated_code(ocp.code_gen_options, f'acados_ocp_solver_{ocp.name}')
+
         # generate code (external functions and templated code)
         t0 = time.time()
         ocp.generate_external_functions()
@@ -176,6 +178,9 @@ class AcadosOcpSolver:
             target_location = os.path.join(ocp.code_gen_options.code_export_directory, ocp.solver_options.custom_update_header_filename)
             shutil.copyfile(ocp.solver_options.custom_update_header_filename, target_location)
 
+        # the generated code is complete
+        ocp.dump_to_json(code_complete=True)
+
 
     @staticmethod
     def build(code_export_dir, with_cython=False, cmake_builder: CMakeBuilder = None, verbose: bool = True):
@@ -198,13 +203,13 @@ class AcadosOcpSolver:
 
             if with_cython:
                 verbose_system_call([make_cmd, 'clean_ocp_cython'], verbose)
-                verbose_system_call([make_cmd, 'ocp_cython'], verbose)
+                run_build_command([make_cmd, 'ocp_cython'], verbose)
             else:
                 if cmake_builder is not None:
                     cmake_builder.exec(code_export_dir, verbose)
                 else:
                     verbose_system_call([make_cmd, 'clean_ocp_shared_lib'], verbose)
-                    verbose_system_call([make_cmd, 'ocp_shared_lib'], verbose)
+                    run_build_command([make_cmd, 'ocp_shared_lib'], verbose)
 
         t1 = time.time()
 
@@ -234,8 +239,12 @@ class AcadosOcpSolver:
                 build = True
                 if verbose:
                     print("Code reuse not possible! Setting generate and build to True.")
-            elif verbose:
-                print("Code reuse possible, skipping code generation.")
+            else:
+                if generate or not os.path.exists(get_shared_lib_path(ocp.code_gen_options, f'acados_ocp_solver_{ocp.name}')):
+                    # the code is generated again, or the last build was not completed
+                    build = True
+                if verbose:
+                    print("Code reuse possible, skipping code generation.")
 
         if generate:
             AcadosOcpSolver.generate(ocp, cmake_builder=cmake_builder, verbose=verbose)
@@ -297,8 +306,12 @@ class AcadosOcpSolver:
                 build = True
                 if verbose:
                     print("Code reuse not possible! Setting generate and build to True.")
-            elif verbose:
-                print("Code reuse possible, skipping code generation.")
+            else:
+                if generate or not os.path.exists(get_shared_lib_path(ocp.code_gen_options, f'acados_ocp_solver_{ocp.name}')):
+                    # the code is generated again, or the last build was not completed
+                    build = True
+                if verbose:
+                    print("Code reuse possible, skipping code generation.")
 
         if generate:
             self.generate(ocp, cmake_builder=cmake_builder, verbose=verbose)
diff --git a/interfaces/acados_template/acados_template/acados_sim.py b/interfaces/acados_template/acados_template/acados_sim.py
index ef86479..611f368 100644
--- a/interfaces/acados_template/acados_template/acados_sim.py
+++ b/interfaces/acados_template/acados_template/acados_sim.py
@@ -537,13 +537,20 @@ class AcadosSim:
         return format_class_dict(sim_dict)
 
 
-    def dump_to_json(self) -> None:
+    def dump_to_json(self, code_complete: bool = False) -> None:
+        """
+        Dumps the sim description in JSON format to `code_gen_options.json_file`.
+
+        :param code_complete: indicates that all code of this description has been generated.
+               Only then, the hash is stored, which allows to reuse the generated code.
+        """
         dir_name = os.path.dirname(self.code_gen_options.json_file)
         if dir_name:
             os.makedirs(dir_name, exist_ok=True)
 
         sim_dict = self.to_dict()
-        sim_dict['hash'] = hash_class_instance(self)
+        if code_complete:
+            sim_dict['hash'] = hash_class_instance(self)
 
         with open(self.code_gen_options.json_file, 'w') as f:
             json.dump(sim_dict, f, default=make_object_json_dumpable, indent=4, sort_keys=True)
diff --git a/interfaces/acados_template/acados_template/acados_sim_solver.py b/interfaces/acados_template/acados_template/acados_sim_solver.py
index fc611f6..3a127bb 100644
--- a/interfaces/acados_template/acados_template/acados_sim_solver.py
+++ b/interfaces/acados_template/acados_template/acados_sim_solver.py
@@ -52,7 +52,7 @@ from .builders import CMakeBuilder
 from .gnsf import detect_gnsf_structure
 from .utils import (get_shared_lib_ext, get_shared_lib_prefix, get_shared_lib_dir, hash_class_instance,
                     status_to_str,
-                    verbose_system_call, acados_lib_is_compiled_with_openmp,
+                    verbose_system_call, run_build_command, remove_outdated_code, get_shared_lib_path, acados_lib_is_compiled_with_openmp,
                     get_shared_lib, set_directory)
 
 
@@ -111,6 +111,8 @@ class AcadosSimSolver:
             else:
                 detect_gnsf_structure(sim.model, sim.dims)
 
+        remove_outdated_code(sim.code_gen_options, f'acados_sim_solver_{sim.name}')
+
         # generate code for external functions
         t0 = time.time()
         sim.generate_external_functions()
@@ -127,6 +129,9 @@ class AcadosSimSolver:
         if verbose:
             print(f"Templated solver code generated in {1000*(t1-t0):.3f} ms.")
 
+        # the generated code is complete
+        sim.dump_to_json(code_complete=True)
+
 
     @staticmethod
     def build(code_export_dir, with_cython=False, cmake_builder: CMakeBuilder = None, verbose: bool = True):
@@ -135,12 +140,13 @@ class AcadosSimSolver:
         with set_directory(code_export_dir):
             if with_cython:
                 verbose_system_call(['make', 'clean_sim_cython'], verbose)
-                verbose_system_call(['make', 'sim_cython'], verbose)
+                run_build_command(['make', 'sim_cython'], verbose)
             else:
                 if cmake_builder is not None:
                     cmake_builder.exec(code_export_dir, verbose)
                 else:
-                    verbose_system_call(['make', 'sim_shared_lib'], verbose)
+                    verbose_system_call(['make', 'clean_sim_shared_lib'], verbose)
+                    run_build_command(['make', 'sim_shared_lib'], verbose)
         t1 = time.time()
 
         if verbose:
@@ -159,8 +165,12 @@ class AcadosSimSolver:
                 build = True
                 if verbose:
                     print("Code reuse not possible! Setting generate and build to True.")
-            elif verbose:
-                print("Code reuse possible, skipping code generation.")
+            else:
+                if not os.path.exists(get_shared_lib_path(sim.code_gen_options, f'acados_sim_solver_{sim.name}')):
+                    # the last build was not completed
+                    build = True
+                if verbose:
+                    print("Code reuse possible, skipping code generation.")
 
         if generate:
             AcadosSimSolver.generate(sim, cmake_builder=cmake_builder, verbose=verbose)
@@ -208,8 +218,12 @@ class AcadosSimSolver:
                 build = True
                 if verbose:
                     print("Code reuse not possible! Setting generate and build to True.")
-            elif verbose:
-                print("Code reuse possible, skipping code generation.")
+            else:
+                if not os.path.exists(get_shared_lib_path(sim.code_gen_options, f'acados_sim_solver_{sim.name}')):
+                    # the last build was not completed
+                    build = True
+                if verbose:
+                    print("Code reuse possible, skipping code generation.")
 
         if generate:
             self.generate(sim, cmake_builder=cmake_builder, verbose=verbose)
diff --git a/interfaces/acados_template/acados_template/utils.py b/interfaces/acados_template/acados_template/utils.py
index b44e231..04a7db5 100644
--- a/interfaces/acados_template/acados_template/utils.py
+++ b/interfaces/acados_template/acados_template/utils.py
@@ -608,6 +608,27 @@ def print_casadi_expression(f: Union[MX, SX, DM]):
         print(f[ii,:])
 
 
+def remove_outdated_code(code_gen_options, shared_lib_name: str) -> None:
+    """
+    Remove the json file and the shared library of code that is about to be generated again,
+    such that an interrupted code generation or build can not be mistaken for usable code.
+    """
+    for path in [code_gen_options.json_file, get_shared_lib_path(code_gen_options, shared_lib_name)]:
+        if os.path.exists(path):
+            os.remove(path)
+
+
+def get_shared_lib_path(code_gen_options, shared_lib_name: str) -> str:
+    return os.path.join(code_gen_options.code_export_directory, f'{get_shared_lib_prefix()}{shared_lib_name}{get_shared_lib_ext()}')
+
+
+def run_build_command(cmd, verbose=True):
+    """Run cmd and raise an exception if it fails."""
+    status = verbose_system_call(cmd, verbose)
+    if status != 0:
+        raise RuntimeError(f'Build command "{" ".join(cmd)}" failed with status {status}.')
+
+
 def verbose_system_call(cmd, verbose=True, shell=False):
     return call(
         cmd,
-- 
2.43.0


From 78d1630ba2e5816d4fc1d2758dcf52d62f8150a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:36 +0000
Subject: [PATCH 66/66] fix: the penalty mode of the funnel globalization was
 kept from the previous call

A solve that ended in penalty mode made the next one, even after a reset, start in
penalty mode, so that it accepted steps that the funnel conditions do not admit.
---
 acados/ocp_nlp/ocp_nlp_globalization_funnel.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/acados/ocp_nlp/ocp_nlp_globalization_funnel.c b/acados/ocp_nlp/ocp_nlp_globalization_funnel.c
index c3b5970..863c20e 100644
--- a/acados/ocp_nlp/ocp_nlp_globalization_funnel.c
+++ b/acados/ocp_nlp/ocp_nlp_globalization_funnel.c
@@ -605,6 +605,7 @@ void ocp_nlp_globalization_funnel_initialize_memory(void *config_, void *dims_,
     mem->l1_infeasibility = ocp_nlp_get_l1_infeasibility(config, dims, nlp_mem);
     initialize_funnel_width(mem, opts, mem->l1_infeasibility);
     mem->funnel_iter_type = '-';
+    mem->funnel_penalty_mode = false;
     initialize_funnel_penalty_parameter(mem, opts);
     mem->alpha = 1.0;
     nlp_mem->objective_multiplier = mem->penalty_parameter;
-- 
2.43.0

