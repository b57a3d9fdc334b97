/* Texts, codes, capabilities (P20) */
#include "internal.h"
#include "auxil.h"
#include "error.h"
static const char* ERR[] = {"Unknown error code.", "Problem data validation.", "Solver settings validation.", "Linear system solver initialization.",
  "KKT matrix factorization.\nThe problem seems to be non-convex.", "Memory allocation.", "Solver workspace not initialized.", "Algebra libraries not loaded.",
  "Unable to open file for writing.", "Invalid defines for codegen", "Vector/matrix not initialized.", "Function not implemented."};
static const char* ST[] = {"", "solved", "solved inaccurate", "primal infeasible", "primal infeasible inaccurate", "dual infeasible", "dual infeasible inaccurate",
  "maximum iterations reached", "run time limit reached", "problem non convex", "interrupted", "unsolved"};
static int same(const char* a, const char* b) { I i; for (i = 0; a[i] && a[i] == b[i]; i++) ; return a[i] == b[i]; }
void harness(void) {
  I what = sym_param("what", 0), k, cap, rc;
  if (what == 0) { /* error texts, for every code */
    I c = sym_int("code", -9223372036854775807LL - 1, 9223372036854775807LL);
    if (c < 1 || c > 11) { sym_cover("unknown"); sym_check(same(osqp_error_message(c), ERR[0]), "P20.unknown-error"); return; }
    c = sym_split(c);
    sym_cover("known");
    sym_check(same(osqp_error_message(c), ERR[c]), "P20.error-text");
    /* reporting an error returns its code */
    sym_check(_osqp_error((enum osqp_error_type)c, "f") == c, "P20.error-code");
    sym_check(_osqp_error_line((enum osqp_error_type)c, "f", "g", 1) == c, "P20.error-code-line");
    sym_check(_osqp_error(OSQP_NO_ERROR, "f") == 0, "P20.no-error");
    return;
  }
  if (what == 1) { /* status texts */
    OSQPInfo info; I c = sym_split(sym_int("status", 1, 11)), j;
    for (j = 0; j < 32; j++) info.status[j] = 'x';
    update_status(&info, c);
    sym_cover("status");
    sym_check(info.status_val == c, "P20.status-value");
    sym_check(same(info.status, ST[c]), "P20.status-text");
    for (j = 0; j < c; j++) sym_check(!same(info.status, ST[j]), "P20.status-distinct");
    return;
  }
  if (what == 2) { /* defaults and capabilities against what the calls do */
    OSQPSettings *s = OSQPSettings_new(), s2; OSQPSolver* sv = 0; Mat P, A; F q[2], l[2], u[2], v[2] = {1.5, 2.5}; I lin, pol;
    mk_mat(&P, 1, 1, 1, "P", 1); mk_mat(&A, 1, 1, 1, "A", 0);
    q[0] = symd("q", 0, -1); l[0] = -1.0; u[0] = 1.0;
    cap = osqp_capabilities();
    sym_check((cap & ~31) == 0, "P20.capability-bits");
    sym_check(osqp_version()[0] != 0, "P20.version");
    osqp_set_default_settings(&s2);
    sym_check(s->max_iter == s2.max_iter && s->eps_abs == s2.eps_abs && s->linsys_solver == s2.linsys_solver, "P20.defaults-same");
    osqp_set_default_settings(0);
    s->verbose = 0; s->scaling = 0; s->max_iter = 1;
    rc = osqp_setup(&sv, &P.M, q, &A.M, l, u, 1, 1, s);
    sym_check(rc == 0, "P20.defaults-accepted");
    if (!rc) {
      rc = osqp_update_data_mat(sv, v, 0, 0, 0, 0, 0);
      sym_check((rc == 0) == !!(cap & OSQP_CAPABILITY_UPDATE_MATRICES), "P20.capability-update");
      rc = osqp_update_settings(sv, s);
      sym_check(rc == 0, "P20.defaults-update");
#ifndef OSQP_CODEGEN
      rc = osqp_codegen(sv, "/nonexistent/", "p", 0);
      sym_check((rc != OSQP_FUNC_NOT_IMPLEMENTED) == !!(cap & OSQP_CAPABILITY_CODEGEN), "P20.capability-codegen");
#endif
#ifndef OSQP_ENABLE_DERIVATIVES
      rc = osqp_adjoint_derivative_compute(sv, 0, 0);
      sym_check((rc != OSQP_FUNC_NOT_IMPLEMENTED) == !!(cap & OSQP_CAPABILITY_DERIVATIVES), "P20.capability-derivatives");
      rc = osqp_adjoint_derivative_get_mat(sv, 0, 0);
      sym_check((rc != OSQP_FUNC_NOT_IMPLEMENTED) == !!(cap & OSQP_CAPABILITY_DERIVATIVES), "P20.capability-derivatives-mat");
      rc = osqp_adjoint_derivative_get_vec(sv, 0, 0, 0);
      sym_check((rc != OSQP_FUNC_NOT_IMPLEMENTED) == !!(cap & OSQP_CAPABILITY_DERIVATIVES), "P20.capability-derivatives-vec");
#endif
      sym_cover("defaults");
      osqp_cleanup(sv);
    }
    for (lin = 1; lin <= 2; lin++) for (pol = 0; pol < 2; pol++) {
      sv = 0; s->linsys_solver = lin == 1 ? OSQP_DIRECT_SOLVER : OSQP_INDIRECT_SOLVER; s->polishing = pol;
      rc = osqp_setup(&sv, &P.M, q, &A.M, l, u, 1, 1, s);
      sym_check((rc == 0) == !!(cap & (lin == 1 ? OSQP_CAPABILITY_DIRECT_SOLVER : OSQP_CAPABILITY_INDIRECT_SOLVER)), "P20.capability-solver");
      if (!rc) {
        sym_check(sv->settings->linsys_solver == s->linsys_solver, "P20.solver-kind");
        rc = osqp_solve(sv);
        sym_check(rc == 0, "P20.solve-rc");
        k = sv->info->status_val;
        sym_check(k >= 1 && k <= 10, "P20.status-known");
        if (k >= 1 && k <= 11) { k = sym_split(k); sym_check(same(sv->info->status, ST[k]), "P20.info-text"); }
      }
      osqp_cleanup(sv);
    }
    OSQPSettings_free(s); OSQPSettings_free(0);
    return;
  }
  if (what == 3) { /* what the library answers where there is no solver, and its dimensions where there is one */
    I a = 5, b = 5; OSQPSolver* sv = 0; OSQPSettings s; Mat P, A; F q[3], l[3], u[3]; I i, n = sym_split(sym_int("n", 1, 2)), m = sym_split(sym_int("m", 0, 2));
    osqp_get_dimensions(0, &a, &b);
    sym_check(a == -1 && b == -1, "P20.dimensions-none");
    mk_settings(&s);
    mk_mat(&P, n, n, n == 1 ? 1 : 9, "P", 1); mk_mat(&A, m, n, (1LL << (m * n)) - 1, "A", 0);
    for (i = 0; i < 3; i++) { q[i] = 0.0; l[i] = -1.0; u[i] = 1.0; }
    rc = osqp_setup(&sv, &P.M, q, &A.M, l, u, m, n, &s);
    sym_check(rc == 0, "P20.setup");
    if (rc) return;
    osqp_get_dimensions(sv, &a, &b);
    sym_cover("dims");
    sym_check(a == m && b == n, "P20.dimensions");
    sym_check(sv->info->status_val == OSQP_UNSOLVED && same(sv->info->status, ST[11]), "P20.unsolved");
    osqp_cleanup(sv);
    return;
  }
  return;
}
