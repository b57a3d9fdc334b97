#include "common.h"
void harness(void) {
  I n = sym_param("n", 2), m = sym_param("m", 2), i;
  Mat P, A; F q[MX], l[MX], u[MX];
  OSQPSettings s; OSQPSolver* sv = 0; OSQPInt rc;
  mk_mat(&P, n, n, sym_param("Pm", 15), "P", 1);
  mk_mat(&A, m, n, sym_param("Am", 15), "A", 0);
  for (i = 0; i < n; i++) q[i] = symd("q", i, -1);
  mk_bounds(l, u, m, "l", "u", sym_param("types", 0));
  mk_settings(&s);
  rc = osqp_setup(&sv, &P.M, q, &A.M, l, u, m, n, &s);
  sym_check(rc == 0, "setup");
  if (rc) return;
  rc = osqp_solve(sv);
  sym_check(rc == 0, "solve");
  sym_cover("solved");
  sym_observe_int("status", sv->info->status_val);
  for (i = 0; i < n; i++) obs("x", i, sv->solution->x[i]);
  for (i = 0; i < m; i++) obs("y", i, sv->solution->y[i]);
  sym_observe("pr", sv->info->prim_res);
  osqp_cleanup(sv);
  sym_check(sym_heap_live() == 0, "leak");
}
