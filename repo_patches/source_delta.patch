From 2fc08ac44552b1186a4f39591d29d804dc43c947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:27 +0000
Subject: [PATCH 01/33] fix: unscale infeasibility certificates also when
 scaled_termination is on

---
 src/auxil.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/auxil.c b/src/auxil.c
index fbca9f4..a1f450b 100644
--- a/src/auxil.c
+++ b/src/auxil.c
@@ -914,7 +914,7 @@ OSQPInt check_termination(OSQPSolver* solver,
       update_status(info, OSQP_PRIMAL_INFEASIBLE);
     }
 
-    if (settings->scaling && !settings->scaled_termination) {
+    if (settings->scaling) {
       // Update infeasibility certificate
       OSQPVectorf_ew_prod(work->delta_y,
                           work->delta_y,
@@ -931,7 +931,7 @@ OSQPInt check_termination(OSQPSolver* solver,
       update_status(info, OSQP_DUAL_INFEASIBLE);
     }
 
-    if (settings->scaling && !settings->scaled_termination) {
+    if (settings->scaling) {
       // Update infeasibility certificate
       OSQPVectorf_ew_prod(work->delta_x,
                           work->delta_x,
-- 
2.43.0


From 0d593e935a833a5ce76b1cce3cd8806b5fccac22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:27 +0000
Subject: [PATCH 02/33] fix: use the magnitude of the duality gap in the
 relative KKT error

---
 src/auxil.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/auxil.c b/src/auxil.c
index a1f450b..808b151 100644
--- a/src/auxil.c
+++ b/src/auxil.c
@@ -754,7 +754,7 @@ void update_info(OSQPSolver* solver,
 #endif /* ifdef OSQP_ENABLE_PROFILING */
 
   // Compute the relative KKT error
-  info->rel_kkt_error = c_max( c_max(*dual_res, *prim_res), *dual_gap);
+  info->rel_kkt_error = c_max( c_max(*dual_res, *prim_res), c_absval(*dual_gap));
 
 #ifdef OSQP_ENABLE_PRINTING
   work->summary_printed = 0; // The just updated info have not been printed
-- 
2.43.0


From d16b5f136c36e0c6fb0d2b0a3c8792fd83e1f8a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:45 +0000
Subject: [PATCH 03/33] fix: keep sigma on the diagonal of a row-wise KKT
 matrix when P is updated

---
 algebra/_common/kkt.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/algebra/_common/kkt.c b/algebra/_common/kkt.c
index c4f33a1..dbc1300 100644
--- a/algebra/_common/kkt.c
+++ b/algebra/_common/kkt.c
@@ -353,14 +353,15 @@ void update_KKT_P(OSQPCscMatrix* KKT,
                   OSQPInt*       PtoKKT,
                   OSQPFloat      param1,
                   OSQPInt        format) {
-  OSQPInt j, Pidx, Kidx, row, offset, doall;
+  OSQPInt j, Pidx, Kidx, row, doall;
+
+  (void)format; // the format of KKT does not change where P has its diagonal
 
   if(P_new_n <= 0){return;}
 
   //if Px_new_idx is null, we assume that all
   //elements are to be replaced (and that P_new_n = nnz(P))
   doall  = Px_new_idx == OSQP_NULL ? 1 : 0;
-  offset = format == 0 ? 1 : 0;
 
   for (j = 0; j < P_new_n; j++) {
     Pidx = doall ? j : Px_new_idx[j];
@@ -369,8 +370,10 @@ void update_KKT_P(OSQPCscMatrix* KKT,
 
     //is the corresonding column nonempty with
     //the current element on the diagonal (i.e. row==col)?
+    //NB: P is TRIU CSC whatever the format of KKT is, so its
+    //diagonal terms are always last in every column.
     row  = P->i[Pidx];
-    if((P->p[row] < P->p[row+1]) && ((P->p[row+offset] - offset) == Pidx)){
+    if((P->p[row] < P->p[row+1]) && ((P->p[row+1] - 1) == Pidx)){
       KKT->x[Kidx] += param1;
     }
   }
-- 
2.43.0


From a2b8cc58d83a5cd63b0f6b14cbb01f326b92f643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:05 +0000
Subject: [PATCH 04/33] fix: reset status, polish status and times at the start
 of every solve

---
 src/auxil.c    | 1 +
 src/osqp_api.c | 3 +++
 2 files changed, 4 insertions(+)

diff --git a/src/auxil.c b/src/auxil.c
index 808b151..a850849 100644
--- a/src/auxil.c
+++ b/src/auxil.c
@@ -775,6 +775,7 @@ void reset_info(OSQPInfo *info) {
 #endif /* ifdef OSQP_ENABLE_PROFILING */
 
   update_status(info, OSQP_UNSOLVED); // Problem is unsolved
+  info->status_polish = OSQP_POLISH_NOT_PERFORMED; // No polishing yet
 
 #if OSQP_EMBEDDED_MODE != 1
   info->rho_updates = 0;              // Rho updates are now 0
diff --git a/src/osqp_api.c b/src/osqp_api.c
index 57b5924..5e63265 100644
--- a/src/osqp_api.c
+++ b/src/osqp_api.c
@@ -661,6 +661,9 @@ OSQPInt osqp_solve(OSQPSolver *solver) {
   work->rho_update_from_solve = 1;
 #endif /* ifdef OSQP_ENABLE_PROFILING */
 
+  // Forget the outcome of any previous solve
+  reset_info(solver->info);
+
   // Initialize variables
   exitflag              = 0;
   can_check_termination = 0;
-- 
2.43.0


From 407058b9034c7032938d375ec641e0f7e139e835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:33 +0000
Subject: [PATCH 05/33] fix: do not leave stale infeasibility certificates
 behind a non-convex status

---
 src/auxil.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/auxil.c b/src/auxil.c
index a850849..a1e8918 100644
--- a/src/auxil.c
+++ b/src/auxil.c
@@ -643,6 +643,14 @@ void store_solution(OSQPSolver *solver, OSQPSolution* solution) {
     osqp_cold_start(solver);
 
 
+    if (info->status_val == OSQP_NON_CVX) {
+      /* Neither certificate is available, set them to NaN */
+      OSQPVectorf_set_scalar(work->delta_y, OSQP_NAN);
+      OSQPVectorf_set_scalar(work->delta_x, OSQP_NAN);
+      OSQPVectorf_to_raw(solution->prim_inf_cert, work->delta_y);
+      OSQPVectorf_to_raw(solution->dual_inf_cert, work->delta_x);
+    }
+
 #ifndef OSQP_EMBEDDED_MODE
 
     // Normalize infeasibility certificates if embedded is off
-- 
2.43.0


From b70fdc5f24f9815a75da2c64ed728a9dd9598df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:08 +0000
Subject: [PATCH 06/33] fix: reject missing constraint bounds in data
 validation

---
 src/auxil.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/auxil.c b/src/auxil.c
index a1e8918..1bf0088 100644
--- a/src/auxil.c
+++ b/src/auxil.c
@@ -980,6 +980,11 @@ OSQPInt validate_data(const OSQPCscMatrix* P,
     return 1;
   }
 
+  if ((m > 0) && (!l || !u)) {
+    c_eprint("Missing constraint bounds l or u");
+    return 1;
+  }
+
   // General dimensions Tests
   if ((n <= 0) || (m < 0)) {
     c_eprint("n must be positive and m nonnegative; n = %i, m = %i",
-- 
2.43.0


From 73d7453daf6ca6c56606daea9a0ab3386f68392b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:08 +0000
Subject: [PATCH 07/33] fix: do not read a missing solver in
 osqp_update_settings

---
 src/osqp_api.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/osqp_api.c b/src/osqp_api.c
index 5e63265..9c5ac73 100644
--- a/src/osqp_api.c
+++ b/src/osqp_api.c
@@ -1477,10 +1477,11 @@ OSQPInt osqp_update_rho(OSQPSolver* solver,
 OSQPInt osqp_update_settings(OSQPSolver*         solver,
                              const OSQPSettings* new_settings) {
 
-  OSQPSettings* settings = solver->settings;
+  OSQPSettings* settings;
 
   /* Check if workspace has been initialized */
   if (!solver || !solver->work) return osqp_error(OSQP_WORKSPACE_NOT_INIT_ERROR);
+  settings = solver->settings;
 
   /* Validate settings */
   if (validate_settings(new_settings, 0)) return osqp_error(OSQP_SETTINGS_VALIDATION_ERROR);
-- 
2.43.0


From 47701963bddae1d2ff9333151c9aee3570148521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:23 +0000
Subject: [PATCH 08/33] fix: do not index the error table with a code that is
 not an error

---
 src/osqp_api.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/osqp_api.c b/src/osqp_api.c
index 9c5ac73..80f973d 100644
--- a/src/osqp_api.c
+++ b/src/osqp_api.c
@@ -240,7 +240,7 @@ const char* osqp_version(void) {
 
 
 const char* osqp_error_message(OSQPInt error_flag) {
-  if( error_flag >= OSQP_LAST_ERROR_PLACE ) {
+  if( error_flag <= OSQP_NO_ERROR || error_flag >= OSQP_LAST_ERROR_PLACE ) {
     return OSQP_ERROR_MESSAGE[OSQP_LAST_ERROR_PLACE-1];
   }
 
-- 
2.43.0


From 70eb0f4991c75046192ae4fa331850a567bf1a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:57 +0000
Subject: [PATCH 09/33] fix: refresh the information of the iteration that
 reaches the time limit

---
 src/osqp_api.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/osqp_api.c b/src/osqp_api.c
index 80f973d..09041e4 100644
--- a/src/osqp_api.c
+++ b/src/osqp_api.c
@@ -758,6 +758,9 @@ osqp_profiler_sec_push(OSQP_PROFILER_SEC_OPT_SOLVE);
       if (settings->verbose) c_print("run time limit reached\n");
       can_print = 0;  // Not printing at this iteration
 # endif /* ifdef OSQP_ENABLE_PRINTING */
+      // This iteration is complete but its information is not computed yet
+      can_check_termination = 0;
+      iter++;
       break;
     }
 #endif /* ifdef OSQP_ENABLE_PROFILING */
-- 
2.43.0


From af14d1294649bcec535b01dda5bdff7722df4a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:57 +0000
Subject: [PATCH 10/33] fix: use at least the termination interval in
 time-based rho adaptation

---
 src/osqp_api.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/osqp_api.c b/src/osqp_api.c
index 09041e4..e00e0be 100644
--- a/src/osqp_api.c
+++ b/src/osqp_api.c
@@ -814,7 +814,7 @@ osqp_profiler_sec_push(OSQP_PROFILER_SEC_OPT_SOLVE);
           }
 
           // Make sure the interval is not 0 and at least check_termination times
-          settings->adaptive_rho_interval = c_min(1, c_max(settings->adaptive_rho_interval,
+          settings->adaptive_rho_interval = c_max(1, c_max(settings->adaptive_rho_interval,
                                                            settings->check_termination));
         }
         else
-- 
2.43.0


From a2bd53693cc563b9f05d13b61127941e46515cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:57 +0000
Subject: [PATCH 11/33] fix: restore the relative KKT error after an
 unsuccessful polish

---
 src/polish.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/polish.c b/src/polish.c
index f66a0a0..6bfef6a 100644
--- a/src/polish.c
+++ b/src/polish.c
@@ -324,6 +324,7 @@ OSQPInt polish(OSQPSolver* solver) {
   OSQPVectorf*  pol_sol = OSQP_NULL; // Polished solution (x and reduced y)
   OSQPVectorf*  pol_sol_xview = OSQP_NULL; // view into x part of polished solution
   OSQPVectorf*  pol_sol_yview = OSQP_NULL; // view into (reduced) y part of polished solutions
+  OSQPFloat     rel_kkt_error;             // relative KKT error before polishing
 
   OSQPInfo*      info     = solver->info;
   OSQPSettings*  settings = solver->settings;
@@ -456,6 +457,7 @@ OSQPInt polish(OSQPSolver* solver) {
   OSQPVectorf_minus(work->pol->y, work->pol->y, work->pol->z);
 
   // Compute primal and dual residuals at the polished solution
+  rel_kkt_error = info->rel_kkt_error;
   update_info(solver, 0, 1);
 
   // Check if polish was successful
@@ -496,6 +498,7 @@ OSQPInt polish(OSQPSolver* solver) {
 #endif /* ifdef OSQP_ENABLE_PRINTING */
   } else { // Polishing failed
     info->status_polish = OSQP_POLISH_FAILED;
+    info->rel_kkt_error = rel_kkt_error;
 
     // TODO: Try to find a better solution on the line connecting ADMM
     //       and polished solution
-- 
2.43.0


From eb1bf3fdb5c783b11d2d89080809166c84cc2157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:57 +0000
Subject: [PATCH 12/33] fix: use the clipped scalar rho at setup

---
 src/osqp_api.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/osqp_api.c b/src/osqp_api.c
index e00e0be..54712b5 100644
--- a/src/osqp_api.c
+++ b/src/osqp_api.c
@@ -493,7 +493,7 @@ OSQPInt osqp_setup(OSQPSolver**         solverp,
   }
   else {
     solver->settings->rho = c_min(c_max(settings->rho, OSQP_RHO_MIN), OSQP_RHO_MAX);
-    work->rho_inv = 1. / settings->rho;
+    work->rho_inv = 1. / solver->settings->rho;
   }
 
   // Initialize linear system solver structure
-- 
2.43.0


From 5408ad1b8d569b1c84e34c844c4fab7e447cb507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:57 +0000
Subject: [PATCH 13/33] fix: regularize the polishing system of the PARDISO
 solver with delta

---
 algebra/mkl/lin_sys/direct/pardiso_interface.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algebra/mkl/lin_sys/direct/pardiso_interface.c b/algebra/mkl/lin_sys/direct/pardiso_interface.c
index e207116..8fc6710 100644
--- a/algebra/mkl/lin_sys/direct/pardiso_interface.c
+++ b/algebra/mkl/lin_sys/direct/pardiso_interface.c
@@ -125,7 +125,7 @@ OSQPInt init_linsys_solver_pardiso(pardiso_solver**    sp,
   if (polishing){ // Called from polish()
     s->KKT = form_KKT(P->csc,A->csc,
                       1,  //format = 1 means CSR
-                      sigma, s->rho_inv_vec, sigma,
+                      settings->delta, s->rho_inv_vec, settings->delta,
                       OSQP_NULL, OSQP_NULL, OSQP_NULL);
   }
   else { // Called from ADMM algorithm
-- 
2.43.0


From cffec4b11a42cbb1eb1c27d486684cc7532bbabc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:57 +0000
Subject: [PATCH 14/33] fix: restart the duality gap integral with every solve

---
 src/auxil.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/auxil.c b/src/auxil.c
index 1bf0088..ccb9ef0 100644
--- a/src/auxil.c
+++ b/src/auxil.c
@@ -782,6 +782,8 @@ void reset_info(OSQPInfo *info) {
   // NB: We do not reset the setup_time because it is performed only once
 #endif /* ifdef OSQP_ENABLE_PROFILING */
 
+  info->primdual_int = 0.0;           // Duality gap integral to zero
+
   update_status(info, OSQP_UNSOLVED); // Problem is unsolved
   info->status_polish = OSQP_POLISH_NOT_PERFORMED; // No polishing yet
 
-- 
2.43.0


From 96a749dddf99ddd4d5c7721775736d03fb632a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:57 +0000
Subject: [PATCH 15/33] fix: time user updates of rho that follow an
 interrupted solve

---
 src/osqp_api.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/osqp_api.c b/src/osqp_api.c
index 54712b5..76ac379 100644
--- a/src/osqp_api.c
+++ b/src/osqp_api.c
@@ -1033,6 +1033,10 @@ osqp_profiler_sec_push(OSQP_PROFILER_SEC_OPT_SOLVE);
 exit:
 #endif /* if defined(OSQP_ENABLE_PROFILING) || defined(OSQP_ENABLE_INTERRUPT) || OSQP_EMBEDDED_MODE != 1 */
 
+#ifdef OSQP_ENABLE_PROFILING
+  work->rho_update_from_solve = 0;
+#endif /* ifdef OSQP_ENABLE_PROFILING */
+
 #ifdef OSQP_ENABLE_INTERRUPT
   // Restore previous signal handler
   osqp_end_interrupt_listener();
-- 
2.43.0


From a6d28d9a6bf7016d8cd16f5952aeb15c45909dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:27 +0000
Subject: [PATCH 16/33] fix: keep a warm start when the solution of an
 infeasible problem is queried

---
 src/auxil.c    | 13 +++++--------
 src/osqp_api.c |  3 +++
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/auxil.c b/src/auxil.c
index ccb9ef0..d25cb49 100644
--- a/src/auxil.c
+++ b/src/auxil.c
@@ -634,14 +634,11 @@ void store_solution(OSQPSolver *solver, OSQPSolution* solution) {
   else {
 
     // No solution present. Solution is NaN
-    OSQPVectorf_set_scalar(work->x, OSQP_NAN);
-    OSQPVectorf_set_scalar(work->y, OSQP_NAN);
-    OSQPVectorf_to_raw(solution->x, work->x); // primal
-    OSQPVectorf_to_raw(solution->y, work->y); // dual
-
-    // reset iterates to 0 for next run (they cannot start from NaN)
-    osqp_cold_start(solver);
-
+    // use x_prev and z_prev as scratch space, the iterates stay as they are
+    OSQPVectorf_set_scalar(work->x_prev, OSQP_NAN);
+    OSQPVectorf_set_scalar(work->z_prev, OSQP_NAN);
+    OSQPVectorf_to_raw(solution->x, work->x_prev); // primal
+    OSQPVectorf_to_raw(solution->y, work->z_prev); // dual
 
     if (info->status_val == OSQP_NON_CVX) {
       /* Neither certificate is available, set them to NaN */
diff --git a/src/osqp_api.c b/src/osqp_api.c
index 76ac379..93ec739 100644
--- a/src/osqp_api.c
+++ b/src/osqp_api.c
@@ -1028,6 +1028,9 @@ osqp_profiler_sec_push(OSQP_PROFILER_SEC_OPT_SOLVE);
   // Store solution
   store_solution(solver, solver->solution);
 
+  // Without a solution, reset the iterates to 0 for the next run
+  if (!has_solution(solver->info)) osqp_cold_start(solver);
+
 // Define exit flag for quitting function
 #if defined(OSQP_ENABLE_PROFILING) || defined(OSQP_ENABLE_INTERRUPT) || OSQP_EMBEDDED_MODE != 1
 exit:
-- 
2.43.0


From 1eb9d6681a00f47e842f84ba29638aa4729ed44b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:36 +0000
Subject: [PATCH 17/33] fix: multiply by matrices without stored entries in the
 MKL backend

---
 algebra/mkl/matrix.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/algebra/mkl/matrix.c b/algebra/mkl/matrix.c
index 3c4e6d1..a51138d 100644
--- a/algebra/mkl/matrix.c
+++ b/algebra/mkl/matrix.c
@@ -217,6 +217,12 @@ void OSQPMatrix_Axpy(const OSQPMatrix*  A,
 
   struct matrix_descr descr;
 
+  /* MKL does not create a handle for an empty matrix, and leaves y untouched without one */
+  if(!A->mkl_mat){
+    csc_Axpy(A->csc, x->values, y->values, alpha, beta);
+    return;
+  }
+
   if(A->symmetry == NONE){
     descr.type = SPARSE_MATRIX_TYPE_GENERAL;
 
@@ -241,6 +247,12 @@ void OSQPMatrix_Atxpy(const OSQPMatrix*  A,
                             OSQPFloat    beta) {
   struct matrix_descr descr;
 
+  /* MKL does not create a handle for an empty matrix, and leaves y untouched without one */
+  if(!A->mkl_mat){
+    csc_Atxpy(A->csc, x->values, y->values, alpha, beta);
+    return;
+  }
+
   if(A->symmetry == NONE){
     descr.type = SPARSE_MATRIX_TYPE_GENERAL;
 
-- 
2.43.0


From 9701b6fd8e5c3e050b07ad79ea67d7f6bd3652a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:36 +0000
Subject: [PATCH 18/33] fix: copy only the stored entries of a matrix in the
 MKL backend

---
 algebra/mkl/matrix.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/algebra/mkl/matrix.c b/algebra/mkl/matrix.c
index a51138d..5f725a7 100644
--- a/algebra/mkl/matrix.c
+++ b/algebra/mkl/matrix.c
@@ -59,7 +59,7 @@ OSQPMatrix* OSQPMatrix_new_from_csc(const OSQPCscMatrix* A,
   OSQPInt i       = 0;
   OSQPInt n       = A->n;   /* Number of columns */
   OSQPInt m       = A->m;   /* Number of rows */
-  OSQPInt nzmax   = A->nzmax; /* Number of non-zeros */
+  OSQPInt nnz     = A->p[n];  /* Number of non-zeros */
   OSQPInt hasData = (A->x != OSQP_NULL); /* Input A matrix has data */
 
   MKL_INT retval = 0;
@@ -76,7 +76,7 @@ OSQPMatrix* OSQPMatrix_new_from_csc(const OSQPCscMatrix* A,
 
   /* We specially allocate this matrix using the MKL memory routines,
      so it should NEVER touch the normal memory routines. */
-  out->csc = mkl_csc_spalloc(m, n, nzmax, hasData);
+  out->csc = mkl_csc_spalloc(m, n, nnz, hasData);
 
   if(!out->csc){
     c_free(out);
@@ -87,7 +87,7 @@ OSQPMatrix* OSQPMatrix_new_from_csc(const OSQPCscMatrix* A,
     out->csc->p[i] = A->p[i];
   }
 
-  for(i=0; i < nzmax; i++) {
+  for(i=0; i < nnz; i++) {
     out->csc->i[i] = A->i[i];
     out->csc->x[i] = A->x[i];
   }
-- 
2.43.0


From 308546f569a5e601bbc75f4893f2354307f74ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:36 +0000
Subject: [PATCH 19/33] fix: return the whole matrix from OSQPMatrix_get_csc in
 the MKL backend

---
 algebra/mkl/matrix.c | 36 ++----------------------------------
 1 file changed, 2 insertions(+), 34 deletions(-)

diff --git a/algebra/mkl/matrix.c b/algebra/mkl/matrix.c
index 5f725a7..6ad8c55 100644
--- a/algebra/mkl/matrix.c
+++ b/algebra/mkl/matrix.c
@@ -132,40 +132,8 @@ OSQPInt*   OSQPMatrix_get_p(const OSQPMatrix* M)  {return M->csc->p;}
 OSQPInt    OSQPMatrix_get_nz(const OSQPMatrix* M) {return M->csc->p[M->csc->n];}
 
 OSQPCscMatrix* OSQPMatrix_get_csc(const OSQPMatrix* M) {
-  /* Values returned from the MKL object */
-  sparse_index_base_t idx_method = 0;
-  MKL_INT numrows = 0;
-  MKL_INT numcols = 0;
-
-  MKL_INT *p_start;
-  MKL_INT *p_end;
-  MKL_INT *row_idx;
-  OSQPFloat *vals;
-
-  /* Computed values */
-  OSQPCscMatrix* B;
-  OSQPInt i = 0;
-  OSQPInt nnz = 0;
-
-  spblas_export_csc(M->mkl_mat, &idx_method, &numrows, &numcols, &p_start, &p_end, &row_idx, &vals);
-
-  /* Create the CSC using the returned data */
-  nnz = p_end[numcols-1]+1;
-  B = csc_spalloc(numcols, numrows, nnz, 1, 0);
-
-  /* MKL doesn't give back the actual p we need, we need to take the last value from p_end and concatenate
-     it onto the array returned in p_start */
-  for (i = 0; i < numcols; i++) {
-    B->p[i] = p_start[i];
-  }
-  B->p[numcols] = p_end[numcols-1] + 1;
-
-  for (i=0; i < nnz; i++) {
-    B->i[i] = row_idx[i];
-    B->x[i] = vals[i];
-  }
-
-  return B;
+  /* The shadow csc matrix is the backing memory of the actual MKL matrix handle, and the caller owns the result. */
+  return csc_copy(M->csc);
 }
 
 
-- 
2.43.0


From 7f14c7286eda7eeccf86e0d79876f11a38e602d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:36 +0000
Subject: [PATCH 20/33] fix: check allocations when creating matrices in the
 MKL backend

---
 algebra/mkl/matrix.c | 42 ++++++++++++++++++++++++++----------------
 1 file changed, 26 insertions(+), 16 deletions(-)

diff --git a/algebra/mkl/matrix.c b/algebra/mkl/matrix.c
index 6ad8c55..4750af5 100644
--- a/algebra/mkl/matrix.c
+++ b/algebra/mkl/matrix.c
@@ -17,6 +17,21 @@ OSQPInt OSQPMatrix_is_eq(const OSQPMatrix* A,
           csc_is_eq(A->csc, B->csc, tol) );
 }
 
+static void mkl_csc_spfree(OSQPCscMatrix* M) {
+  if(M) {
+    if(M->p)
+      blas_free(M->p);
+
+    if(M->i)
+      blas_free(M->i);
+
+    if(M->x)
+      blas_free(M->x);
+
+    c_free(M);
+  }
+}
+
 /* Special routine to allocate a OSQPCscMatrix using the MKL memory routines
    instead of the normal memory routines */
 static OSQPCscMatrix* mkl_csc_spalloc(OSQPInt m, OSQPInt n, OSQPInt nzmax, OSQPInt hasData) {
@@ -34,22 +49,13 @@ static OSQPCscMatrix* mkl_csc_spalloc(OSQPInt m, OSQPInt n, OSQPInt nzmax, OSQPI
   csc->i     = hasData ? blas_malloc(nzmax * sizeof(OSQPInt)) : OSQP_NULL;
   csc->x     = hasData ? blas_malloc(nzmax * sizeof(OSQPFloat)) : OSQP_NULL;
 
-  return csc;
-}
-
-static void mkl_csc_spfree(OSQPCscMatrix* M) {
-  if(M) {
-    if(M->p)
-      blas_free(M->p);
-
-    if(M->i)
-      blas_free(M->i);
-
-    if(M->x)
-      blas_free(M->x);
-
-    c_free(M);
+  /* MKL gives no memory for arrays of size zero */
+  if(!csc->p || (hasData && nzmax > 0 && (!csc->i || !csc->x))){
+    mkl_csc_spfree(csc);
+    return OSQP_NULL;
   }
+
+  return csc;
 }
 
 //Make a copy from a csc matrix.  Returns OSQP_NULL on failure
@@ -308,7 +314,11 @@ static OSQPCscMatrix* mkl_submatrix_byrows(const OSQPCscMatrix* A,
 
   // Form R = A(rows,:), where nrows = sum(rows != 0)
   R = mkl_csc_spalloc(Rm, An, nzR, 1);
-  if (!R) return OSQP_NULL;
+  if (!R) {
+    // Free work index and return on error
+    c_free(rridx);
+    return OSQP_NULL;
+  }
 
   // no active constraints
   if (Rm == 0) {
-- 
2.43.0


From c989c07e996caf43b7998b13f38de264f959310a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:36 +0000
Subject: [PATCH 21/33] fix: check allocations in the Pardiso interface

---
 .../mkl/lin_sys/direct/pardiso_interface.c    | 38 +++++++++++++++----
 1 file changed, 30 insertions(+), 8 deletions(-)

diff --git a/algebra/mkl/lin_sys/direct/pardiso_interface.c b/algebra/mkl/lin_sys/direct/pardiso_interface.c
index 8fc6710..e0d865c 100644
--- a/algebra/mkl/lin_sys/direct/pardiso_interface.c
+++ b/algebra/mkl/lin_sys/direct/pardiso_interface.c
@@ -36,14 +36,16 @@ void warm_start_linsys_solver_pardiso(pardiso_solver*    s,
 void free_linsys_solver_pardiso(pardiso_solver* s) {
   if (s) {
 
-    // Free pardiso solver using internal function
-    s->phase = PARDISO_CLEANUP;
-    PARDISO (s->pt, &(s->maxfct), &(s->mnum), &(s->mtype), &(s->phase),
-             &(s->nKKT), &(s->fdum), s->KKT_p, s->KKT_i, &(s->idum), &(s->nrhs),
-             s->iparm, &(s->msglvl), &(s->fdum), &(s->fdum), &(s->error));
-
-    if ( s->error != 0 ){
-      c_eprint("Error during MKL Pardiso cleanup: %d", (int)s->error);
+    // Free pardiso solver using internal function (if it has been initialized)
+    if (s->KKT_p && s->KKT_i) {
+      s->phase = PARDISO_CLEANUP;
+      PARDISO (s->pt, &(s->maxfct), &(s->mnum), &(s->mtype), &(s->phase),
+               &(s->nKKT), &(s->fdum), s->KKT_p, s->KKT_i, &(s->idum), &(s->nrhs),
+               s->iparm, &(s->msglvl), &(s->fdum), &(s->fdum), &(s->error));
+
+      if ( s->error != 0 ){
+        c_eprint("Error during MKL Pardiso cleanup: %d", (int)s->error);
+      }
     }
     // Check each attribute of the structure and free it if it exists
     if (s->KKT)         csc_spfree(s->KKT);
@@ -82,6 +84,7 @@ OSQPInt init_linsys_solver_pardiso(pardiso_solver**    sp,
   // Allocate private structure to store KKT factorization
   pardiso_solver *s = c_calloc(1, sizeof(pardiso_solver));
   *sp = s;
+  if (!s) return OSQP_MEM_ALLOC_ERROR;
 
   // Size of KKT
   n = P->csc->n;
@@ -121,6 +124,12 @@ OSQPInt init_linsys_solver_pardiso(pardiso_solver**    sp,
   }
   // else it is NULL
 
+  if (!s->bp || !s->sol || (rho_vec && !s->rho_inv_vec)) {
+    free_linsys_solver_pardiso(s);
+    *sp = OSQP_NULL;
+    return OSQP_MEM_ALLOC_ERROR;
+  }
+
   // Form KKT matrix
   if (polishing){ // Called from polish()
     s->KKT = form_KKT(P->csc,A->csc,
@@ -135,6 +144,12 @@ OSQPInt init_linsys_solver_pardiso(pardiso_solver**    sp,
     s->AtoKKT   = c_malloc(A->csc->p[n] * sizeof(OSQPInt));
     s->rhotoKKT = c_malloc(m * sizeof(OSQPInt));
 
+    if ((P->csc->p[n] && !s->PtoKKT) || (A->csc->p[n] && !s->AtoKKT) || (m && !s->rhotoKKT)) {
+      free_linsys_solver_pardiso(s);
+      *sp = OSQP_NULL;
+      return OSQP_MEM_ALLOC_ERROR;
+    }
+
     // Use s->rho_inv_vec for storing param2 = rho_inv_vec
     if (rho_vec) {
         rhov = rho_vec->values;
@@ -156,6 +171,7 @@ OSQPInt init_linsys_solver_pardiso(pardiso_solver**    sp,
   if (!(s->KKT)) {
 	  c_eprint("Error in forming KKT matrix");
     free_linsys_solver_pardiso(s);
+    *sp = OSQP_NULL;
     return OSQP_LINSYS_SOLVER_INIT_ERROR;
   } else {
     // Adjust indexing for Pardiso
@@ -163,6 +179,12 @@ OSQPInt init_linsys_solver_pardiso(pardiso_solver**    sp,
     s->KKT_i = c_malloc((nnzKKT) * sizeof(OSQPInt));
     s->KKT_p = c_malloc((n_plus_m + 1) * sizeof(OSQPInt));
 
+    if (!s->KKT_i || !s->KKT_p) {
+      free_linsys_solver_pardiso(s);
+      *sp = OSQP_NULL;
+      return OSQP_MEM_ALLOC_ERROR;
+    }
+
     for(i = 0; i < nnzKKT; i++){
       s->KKT_i[i] = s->KKT->i[i] + 1;
     }
-- 
2.43.0


From bd4cf574ec1b638f5aab69c7f15111b3dc8a8b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:36 +0000
Subject: [PATCH 22/33] fix: support a scalar rho in the MKL indirect solver

---
 algebra/mkl/lin_sys/indirect/mkl-cg_interface.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/algebra/mkl/lin_sys/indirect/mkl-cg_interface.c b/algebra/mkl/lin_sys/indirect/mkl-cg_interface.c
index de14930..ceec5ee 100644
--- a/algebra/mkl/lin_sys/indirect/mkl-cg_interface.c
+++ b/algebra/mkl/lin_sys/indirect/mkl-cg_interface.c
@@ -107,11 +107,12 @@ OSQPInt init_linsys_mklcg(mklcg_solver**     sp,
   s->scaled_prim_res = scaled_prim_res;
   s->scaled_dual_res = scaled_dual_res;
 
-  //if polish is false, use the rho_vec we get.
+  //if polish is false, use the rho_vec we get (or the scalar rho without one).
   //Otherwise, use rho_vec = ones.*(1/sigma)
   s->rho_vec = OSQPVectorf_malloc(m);
   if (!polish) {
-      OSQPVectorf_copy(s->rho_vec, rho_vec);
+      if (rho_vec) OSQPVectorf_copy(s->rho_vec, rho_vec);
+      else         OSQPVectorf_set_scalar(s->rho_vec, settings->rho);
   } else {
       OSQPVectorf_set_scalar(s->rho_vec, 1/settings->sigma);
   }
@@ -364,7 +365,8 @@ OSQPInt update_matrices_linsys_mklcg(mklcg_solver*     s,
 OSQPInt update_rho_linsys_mklcg(mklcg_solver*    s,
                               const OSQPVectorf* rho_vec,
                               OSQPFloat          rho_sc) {
-  OSQPVectorf_copy(s->rho_vec, rho_vec);
+  if (rho_vec) OSQPVectorf_copy(s->rho_vec, rho_vec);
+  else         OSQPVectorf_set_scalar(s->rho_vec, rho_sc);
 
   // Update the preconditioner (rho-only update)
   cg_update_precond(s);
-- 
2.43.0


From 6e3d3f83832c6e7bcefd6f599d1af9a7166b2b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:36 +0000
Subject: [PATCH 23/33] fix: check allocations in the MKL indirect solver

---
 .../mkl/lin_sys/indirect/mkl-cg_interface.c   | 43 ++++++++++++++-----
 1 file changed, 32 insertions(+), 11 deletions(-)

diff --git a/algebra/mkl/lin_sys/indirect/mkl-cg_interface.c b/algebra/mkl/lin_sys/indirect/mkl-cg_interface.c
index ceec5ee..a76a5fa 100644
--- a/algebra/mkl/lin_sys/indirect/mkl-cg_interface.c
+++ b/algebra/mkl/lin_sys/indirect/mkl-cg_interface.c
@@ -92,8 +92,9 @@ OSQPInt init_linsys_mklcg(mklcg_solver**     sp,
   OSQPInt m = A->csc->m;
   OSQPInt n = P->csc->n;
   MKL_INT status;
-  mklcg_solver* s = (mklcg_solver *)c_malloc(sizeof(mklcg_solver));
+  mklcg_solver* s = (mklcg_solver *)c_calloc(1, sizeof(mklcg_solver));
   *sp = s;
+  if (!s) return OSQP_MEM_ALLOC_ERROR;
 
   //Just hold on to pointers to the problem
   //data, no copies or processing required
@@ -110,6 +111,12 @@ OSQPInt init_linsys_mklcg(mklcg_solver**     sp,
   //if polish is false, use the rho_vec we get (or the scalar rho without one).
   //Otherwise, use rho_vec = ones.*(1/sigma)
   s->rho_vec = OSQPVectorf_malloc(m);
+  if (!s->rho_vec) {
+    free_linsys_mklcg(s);
+    *sp = OSQP_NULL;
+    return OSQP_MEM_ALLOC_ERROR;
+  }
+
   if (!polish) {
       if (rho_vec) OSQPVectorf_copy(s->rho_vec, rho_vec);
       else         OSQPVectorf_set_scalar(s->rho_vec, settings->rho);
@@ -152,13 +159,6 @@ OSQPInt init_linsys_mklcg(mklcg_solver**     sp,
   //Workspace for CG products and polishing
   s->ywork = OSQPVectorf_malloc(m);
 
-  //make subviews for the rhs.   OSQP passes
-  //a different RHS pointer at every iteration,
-  //so we will need to update these views every
-  //time we solve. Just point them at x for now.
-  s->r1 = OSQPVectorf_view(s->x, 0, 0);
-  s->r2 = OSQPVectorf_view(s->x, 0, 0);
-
   //Allocate a 4*n vector for the MKL workspace
   // 1:n     = Vector to multiply by the matrix
   // n+1:2n  = Vector after multiplying by the matrix
@@ -166,6 +166,23 @@ OSQPInt init_linsys_mklcg(mklcg_solver**     sp,
   // 3n+1:4n = Vector after application of the preconditioner
   s->tmp = OSQPVectorf_malloc(4*n);
 
+  //Vectors for the preconditioner
+  s->precond     = OSQPVectorf_malloc(n);
+  s->precond_inv = OSQPVectorf_malloc(n);
+
+  if (!s->x || !s->ywork || !s->tmp || !s->precond || !s->precond_inv) {
+    free_linsys_mklcg(s);
+    *sp = OSQP_NULL;
+    return OSQP_MEM_ALLOC_ERROR;
+  }
+
+  //make subviews for the rhs.   OSQP passes
+  //a different RHS pointer at every iteration,
+  //so we will need to update these views every
+  //time we solve. Just point them at x for now.
+  s->r1 = OSQPVectorf_view(s->x, 0, 0);
+  s->r2 = OSQPVectorf_view(s->x, 0, 0);
+
   // Create subviews to tmp to aid the matrix-vector multiplication
   s->mvm_pre  = OSQPVectorf_view(s->tmp, 0, n);
   s->mvm_post = OSQPVectorf_view(s->tmp, n, n);
@@ -174,11 +191,15 @@ OSQPInt init_linsys_mklcg(mklcg_solver**     sp,
   s->precond_pre  = OSQPVectorf_view(s->tmp, 2*n, n);
   s->precond_post = OSQPVectorf_view(s->tmp, 3*n, n);
 
+  if (!s->r1 || !s->r2 || !s->mvm_pre || !s->mvm_post || !s->precond_pre || !s->precond_post) {
+    free_linsys_mklcg(s);
+    *sp = OSQP_NULL;
+    return OSQP_MEM_ALLOC_ERROR;
+  }
+
   status = cg_solver_init(s);
 
   // Compute the preconditioner
-  s->precond     = OSQPVectorf_malloc(n);
-  s->precond_inv = OSQPVectorf_malloc(n);
   cg_update_precond(s);
 
   return status;
@@ -377,7 +398,7 @@ OSQPInt update_rho_linsys_mklcg(mklcg_solver*    s,
 
 void free_linsys_mklcg(mklcg_solver* s) {
 
-  if (s->tmp) {
+  if (s) {
     OSQPVectorf_free(s->tmp);
     OSQPVectorf_free(s->rho_vec);
     OSQPVectorf_free(s->x);
-- 
2.43.0


From 84228fa23766c6f1bf493284e0d4cbb36b484bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:36 +0000
Subject: [PATCH 24/33] fix: release everything when polishing fails

---
 src/polish.c | 33 +++++++++++++++++++++++++++++++--
 1 file changed, 31 insertions(+), 2 deletions(-)

diff --git a/src/polish.c b/src/polish.c
index 6bfef6a..c49b49e 100644
--- a/src/polish.c
+++ b/src/polish.c
@@ -200,6 +200,7 @@ static OSQPInt iterative_refinement(OSQPSolver*   solver,
 
     // Allocate dz and rhs vectors
     rhs = OSQPVectorf_malloc(work->data->n + mred);
+    if (!rhs) return osqp_error(OSQP_MEM_ALLOC_ERROR);
 
     //form views of the top/bottom parts of rhs and z
     rhs1 = OSQPVectorf_view(rhs,0,work->data->n);
@@ -207,7 +208,13 @@ static OSQPInt iterative_refinement(OSQPSolver*   solver,
     z1   = OSQPVectorf_view(z,0,work->data->n);
     z2   = OSQPVectorf_view(z,work->data->n,mred);
 
-    if (!rhs || !rhs1 || !rhs2 || !z1 || !z2) {
+    if (!rhs1 || !rhs2 || !z1 || !z2) {
+      OSQPVectorf_free(rhs);
+      OSQPVectorf_view_free(rhs1);
+      OSQPVectorf_view_free(rhs2);
+      OSQPVectorf_view_free(z1);
+      OSQPVectorf_view_free(z2);
+
       return osqp_error(OSQP_MEM_ALLOC_ERROR);
     }
 
@@ -361,6 +368,7 @@ OSQPInt polish(OSQPSolver* solver) {
     info->status_polish = OSQP_POLISH_LINSYS_ERROR;
 
     /* Memory clean-up */
+    if (plsh) plsh->free(plsh);
     OSQPMatrix_free(work->pol->Ared);
 
     return exitflag;
@@ -374,6 +382,7 @@ OSQPInt polish(OSQPSolver* solver) {
     info->status_polish = OSQP_POLISH_FAILED;
 
     /* Memory clean-up */
+    plsh->free(plsh);
     OSQPMatrix_free(work->pol->Ared);
 
     return osqp_error(OSQP_MEM_ALLOC_ERROR);
@@ -386,7 +395,9 @@ OSQPInt polish(OSQPSolver* solver) {
     info->status_polish = OSQP_POLISH_FAILED;
 
     /* Memory clean-up */
+    plsh->free(plsh);
     OSQPMatrix_free(work->pol->Ared);
+    OSQPVectorf_free(rhs_red);
 
     return exitflag;
   }
@@ -398,6 +409,7 @@ OSQPInt polish(OSQPSolver* solver) {
     info->status_polish = OSQP_POLISH_FAILED;
 
     /* Memory clean-up */
+    plsh->free(plsh);
     OSQPMatrix_free(work->pol->Ared);
     OSQPVectorf_free(rhs_red);
 
@@ -413,6 +425,7 @@ OSQPInt polish(OSQPSolver* solver) {
     info->status_polish = OSQP_POLISH_FAILED;
 
     // Memory clean-up
+    plsh->free(plsh);
     OSQPMatrix_free(work->pol->Ared);
     OSQPVectorf_free(rhs_red);
     OSQPVectorf_free(pol_sol);
@@ -436,6 +449,7 @@ OSQPInt polish(OSQPSolver* solver) {
     info->status_polish = OSQP_POLISH_FAILED;
 
     // Memory clean-up
+    plsh->free(plsh);
     OSQPMatrix_free(work->pol->Ared);
     OSQPVectorf_free(rhs_red);
     OSQPVectorf_free(pol_sol);
@@ -448,7 +462,22 @@ OSQPInt polish(OSQPSolver* solver) {
   // Store the polished solution (x,z,y)
   OSQPVectorf_copy(work->pol->x, pol_sol_xview);   // pol->x
   OSQPMatrix_Axpy(work->data->A, work->pol->x, work->pol->z, 1.0, 0.0);
-  get_ypol_from_yred(work, pol_sol_yview);     // pol->y
+  exitflag = get_ypol_from_yred(work, pol_sol_yview);     // pol->y
+
+  if (exitflag) {
+    // Polishing failed
+    info->status_polish = OSQP_POLISH_FAILED;
+
+    // Memory clean-up
+    plsh->free(plsh);
+    OSQPMatrix_free(work->pol->Ared);
+    OSQPVectorf_free(rhs_red);
+    OSQPVectorf_free(pol_sol);
+    OSQPVectorf_view_free(pol_sol_xview);
+    OSQPVectorf_view_free(pol_sol_yview);
+
+    return exitflag;
+  }
 
   // Ensure z is in C and y is in the normal cone N_C(z)
   // by doing: y <- y + z;  z <- proj_C(y);  y <- y - z
-- 
2.43.0


From abd46e85daf6879b0fd5236e326b275f71e39f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:36 +0000
Subject: [PATCH 25/33] fix: check allocations in the matrix constructors

---
 src/osqp_api.c | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/osqp_api.c b/src/osqp_api.c
index 93ec739..1ea7fa5 100644
--- a/src/osqp_api.c
+++ b/src/osqp_api.c
@@ -67,6 +67,14 @@ OSQPCscMatrix* OSQPCscMatrix_diag_scalar(OSQPInt   m,
   mat->nz = -1;
   mat->p  = (OSQPInt*) c_calloc(n + 1, sizeof(OSQPInt));
 
+  // We own the arrays
+  mat->owned = 1;
+
+  if (!mat->p) {
+    OSQPCscMatrix_free(mat);
+    return OSQP_NULL;
+  }
+
   if( m < n) {
     // Fewer rows than columns
     for(i=0; i < n; i++) {
@@ -87,6 +95,11 @@ OSQPCscMatrix* OSQPCscMatrix_diag_scalar(OSQPInt   m,
   mat->i     = (OSQPInt*) c_malloc(min_elem * sizeof(OSQPInt));
   mat->x     = (OSQPFloat*) c_malloc(min_elem * sizeof(OSQPFloat));
 
+  if (min_elem > 0 && (!mat->i || !mat->x)) {
+    OSQPCscMatrix_free(mat);
+    return OSQP_NULL;
+  }
+
   for(i=0; i < min_elem; i++) {
     mat->i[i] = i;
     mat->x[i] = scalar;
@@ -95,9 +108,6 @@ OSQPCscMatrix* OSQPCscMatrix_diag_scalar(OSQPInt   m,
   // Last element of column vector is always the number of entries
   mat->p[n] = min_elem;
 
-  // We own the arrays
-  mat->owned = 1;
-
   return mat;
 }
 
@@ -137,6 +147,11 @@ OSQPCscMatrix* OSQPCscMatrix_zeros(OSQPInt    m,
   // The column pointer array is just all 0s
   mat->p = (OSQPInt*) c_calloc(n + 1, sizeof(OSQPInt));
 
+  if (!mat->p) {
+    c_free(mat);
+    return OSQP_NULL;
+  }
+
   // We own the arrays
   mat->owned = 1;
 
-- 
2.43.0


From e5b6eea6b07d98c2612329a46bffb5b5dd00aaff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:36 +0000
Subject: [PATCH 26/33] fix: check allocations in triu_to_csc and vstack

---
 algebra/_common/csc_utils.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/algebra/_common/csc_utils.c b/algebra/_common/csc_utils.c
index 478ce92..a0afeff 100644
--- a/algebra/_common/csc_utils.c
+++ b/algebra/_common/csc_utils.c
@@ -571,7 +571,7 @@ OSQPCscMatrix* triu_to_csc(OSQPCscMatrix* M) {
 
     // Convert triplet matrix to csc format
     M_symm = triplet_to_csc(M_trip, OSQP_NULL);
-    M_symm->nzmax = z_M;
+    if (M_symm) M_symm->nzmax = z_M;
 
     csc_spfree(M_trip);
     return M_symm;
@@ -622,7 +622,7 @@ OSQPCscMatrix* vstack(OSQPCscMatrix* A, OSQPCscMatrix* B) {
 
     // Convert triplet matrix to csc format
     M = triplet_to_csc(M_trip, OSQP_NULL);
-    M->nzmax = z_M;
+    if (M) M->nzmax = z_M;
 
     csc_spfree(M_trip);
     return M;
-- 
2.43.0


From ce39067ae5c43aaa587e9b2e7bc3740ecf7da2d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:36 +0000
Subject: [PATCH 27/33] fix: check the allocation behind the workspace views in
 setup

---
 src/osqp_api.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/osqp_api.c b/src/osqp_api.c
index 1ea7fa5..ca5f85e 100644
--- a/src/osqp_api.c
+++ b/src/osqp_api.c
@@ -432,12 +432,13 @@ OSQPInt osqp_setup(OSQPSolver**         solverp,
   work->x           = OSQPVectorf_calloc(n);
   work->z           = OSQPVectorf_calloc(m);
   work->xz_tilde    = OSQPVectorf_calloc(n + m);
+  if (!(work->xz_tilde)) return osqp_error(OSQP_MEM_ALLOC_ERROR);
   work->xtilde_view = OSQPVectorf_view(work->xz_tilde,0,n);
   work->ztilde_view = OSQPVectorf_view(work->xz_tilde,n,m);
   work->x_prev      = OSQPVectorf_calloc(n);
   work->z_prev      = OSQPVectorf_calloc(m);
   work->y           = OSQPVectorf_calloc(m);
-  if (!(work->x) || !(work->z) || !(work->xz_tilde))
+  if (!(work->x) || !(work->z))
     return osqp_error(OSQP_MEM_ALLOC_ERROR);
   if (!(work->xtilde_view) || !(work->ztilde_view))
       return osqp_error(OSQP_MEM_ALLOC_ERROR);
-- 
2.43.0


From eb55baca2097226fce73bd048b116afbd8420f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:42 +0000
Subject: [PATCH 28/33] fix: an empty position list updates no matrix entries
 instead of reading past its end

---
 src/osqp_api.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/osqp_api.c b/src/osqp_api.c
index ca5f85e..838e51e 100644
--- a/src/osqp_api.c
+++ b/src/osqp_api.c
@@ -1376,7 +1376,7 @@ OSQPInt osqp_update_data_mat(OSQPSolver*      solver,
   }
 
   // Handle legacy behavior that allowed passing 0 as the length when updating all values
-  if(P_new_n == 0) {
+  if(Px_new_idx == OSQP_NULL && P_new_n == 0) {
     P_new_n = nnzP;
   }
 
@@ -1394,7 +1394,7 @@ OSQPInt osqp_update_data_mat(OSQPSolver*      solver,
   }
 
     // Handle legacy behavior that allowed passing 0 as the length when updating all values
-  if(A_new_n == 0) {
+  if(Ax_new_idx == OSQP_NULL && A_new_n == 0) {
     A_new_n = nnzA;
   }
 
-- 
2.43.0


From abcc688b985e079ddb8a753b28c63112741fb88e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:56 +0000
Subject: [PATCH 29/33] fix: a rejected bounds update leaves the primal
 infeasibility certificate alone

---
 src/osqp_api.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/osqp_api.c b/src/osqp_api.c
index 838e51e..910856b 100644
--- a/src/osqp_api.c
+++ b/src/osqp_api.c
@@ -1236,9 +1236,9 @@ OSQPInt osqp_update_data_vec(OSQPSolver*      solver,
 
   /* Update constraint bounds */
   if (l_new || u_new) {
-    /* Use z_prev and delta_y to store l_new and u_new */
+    /* Use z_prev and Adelta_x to store l_new and u_new */
     l_tmp = work->z_prev;
-    u_tmp = work->delta_y;
+    u_tmp = work->Adelta_x;
 
     /* Copy l_new and u_new to l_tmp and u_tmp */
     if (l_new) OSQPVectorf_from_raw(l_tmp, l_new);
@@ -1256,9 +1256,9 @@ OSQPInt osqp_update_data_vec(OSQPSolver*      solver,
       if (exitflag) return osqp_error(OSQP_DATA_VALIDATION_ERROR);
 
       /* Swap vectors.
-       * NB: Use work->z_prev & delta_y rather than l_tmp & u_tmp */
+       * NB: Use work->z_prev & Adelta_x rather than l_tmp & u_tmp */
       if (l_new) swap_vectors(&work->z_prev,  &work->data->l);
-      if (u_new) swap_vectors(&work->delta_y, &work->data->u);
+      if (u_new) swap_vectors(&work->Adelta_x, &work->data->u);
 
 #if OSQP_EMBEDDED_MODE != 1
       /* Update rho_vec and refactor if constraints type changes */
-- 
2.43.0


From e7a9a3a9ac9b05755ccf4aa3cf0979d1e3ea211a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:59 +0000
Subject: [PATCH 30/33] fix: a solve does not judge its penalty updates by the
 error of an earlier solve

---
 src/osqp_api.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/osqp_api.c b/src/osqp_api.c
index 910856b..ec13ac7 100644
--- a/src/osqp_api.c
+++ b/src/osqp_api.c
@@ -679,6 +679,7 @@ OSQPInt osqp_solve(OSQPSolver *solver) {
 
   // Forget the outcome of any previous solve
   reset_info(solver->info);
+  work->last_rel_kkt = OSQP_INFTY;
 
   // Initialize variables
   exitflag              = 0;
-- 
2.43.0


From ed8423b96696bed024b518e57a5edcbab6b74d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:02 +0000
Subject: [PATCH 31/33] fix: the last iteration's duality gap enters the
 primal-dual integral once

---
 src/osqp_api.c | 20 ++++++--------------
 1 file changed, 6 insertions(+), 14 deletions(-)

diff --git a/src/osqp_api.c b/src/osqp_api.c
index ec13ac7..33b3836 100644
--- a/src/osqp_api.c
+++ b/src/osqp_api.c
@@ -657,6 +657,7 @@ OSQPInt osqp_solve(OSQPSolver *solver) {
   OSQPInt can_print = 0;             // boolean, whether to print or not
   OSQPInt can_adapt_rho = 0;         // boolean, adapt rho or not
   OSQPInt can_check_termination = 0; // boolean, check termination or not
+  OSQPInt info_updated = 0;          // boolean, info describes the last iteration or not
 
   OSQPWorkspace* work;
   OSQPSettings*  settings;
@@ -777,6 +778,7 @@ osqp_profiler_sec_push(OSQP_PROFILER_SEC_OPT_SOLVE);
 # endif /* ifdef OSQP_ENABLE_PRINTING */
       // This iteration is complete but its information is not computed yet
       can_check_termination = 0;
+      info_updated = 0;
       iter++;
       break;
     }
@@ -868,7 +870,8 @@ osqp_profiler_sec_push(OSQP_PROFILER_SEC_OPT_SOLVE);
     can_adapt_rho = 0;
 #endif /* OSQP_EMBEDDED_MODE != 1 */
 
-    if(can_check_termination || can_print || can_adapt_rho || iter == 1) {
+    info_updated = can_check_termination || can_print || can_adapt_rho || iter == 1;
+    if(info_updated) {
       // We must update the info in these cases:
       // * We will be checking termination
       // * We will be printing status
@@ -929,19 +932,8 @@ osqp_profiler_sec_push(OSQP_PROFILER_SEC_OPT_SOLVE);
   // Update information and check termination condition if it hasn't been done
   // during last iteration (max_iter reached or check_termination disabled)
   if (!can_check_termination) {
-    /* Update information */
-#ifdef OSQP_ENABLE_PRINTING
-
-    if (!can_print) {
-      // Update info only if it hasn't been updated before for printing
-      // reasons
-      update_info(solver, iter - 1, 0);
-    }
-#else /* ifdef OSQP_ENABLE_PRINTING */
-
-    // If no printing is enabled, update info directly
-    update_info(solver, iter - 1, 0);
-#endif /* ifdef OSQP_ENABLE_PRINTING */
+    /* Update information if it hasn't been updated in the last iteration for another reason */
+    if (!info_updated) update_info(solver, iter - 1, 0);
 
 #ifdef OSQP_ENABLE_PRINTING
 
-- 
2.43.0


From 8201d39958490783625f8ca05daa588a1b74a85c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:06 +0000
Subject: [PATCH 32/33] fix: start the MKL CG solver from the given point on a
 warm or cold start

---
 algebra/mkl/lin_sys/indirect/mkl-cg_interface.c | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/algebra/mkl/lin_sys/indirect/mkl-cg_interface.c b/algebra/mkl/lin_sys/indirect/mkl-cg_interface.c
index a76a5fa..fc1bdef 100644
--- a/algebra/mkl/lin_sys/indirect/mkl-cg_interface.c
+++ b/algebra/mkl/lin_sys/indirect/mkl-cg_interface.c
@@ -352,10 +352,7 @@ void update_settings_linsys_solver_mklcg(struct mklcg_solver_* s,
 
 void warm_start_linys_mklcg(struct mklcg_solver_* self,
                             const OSQPVectorf*    x) {
-  // TODO: Warm starting!
-  OSQP_UnusedVar(self);
-  OSQP_UnusedVar(x);
-  return;
+  OSQPVectorf_copy(self->x, x);
 }
 
 
-- 
2.43.0


From f3aaa5aa9b8b4bc82a47c21b32e0529d78acad67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:44 +0000
Subject: [PATCH 33/33] fix: restart the count of idle CG calls with every
 solve

---
 algebra/mkl/lin_sys/indirect/mkl-cg_interface.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/algebra/mkl/lin_sys/indirect/mkl-cg_interface.c b/algebra/mkl/lin_sys/indirect/mkl-cg_interface.c
index fc1bdef..c33e125 100644
--- a/algebra/mkl/lin_sys/indirect/mkl-cg_interface.c
+++ b/algebra/mkl/lin_sys/indirect/mkl-cg_interface.c
@@ -244,7 +244,9 @@ OSQPInt solve_linsys_mklcg(mklcg_solver* s,
   } else {
     if (admm_iter == 1) {
       // On the first iteration, set reduction_factor to its default value
+      // and restart the count of idle CG calls
       s->reduction_factor = s->tol_fraction;
+      s->cg_zero_iters    = 0;
     } else if (s->cg_zero_iters >= s->reduction_interval) {
       // Otherwise. check to see if the tolerance reduction factor should be adapted.
       // This is done if CG is consistently never having to actually run.
-- 
2.43.0

