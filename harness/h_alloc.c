/* P23: one failing allocation, anywhere */
#include "internal.h"
#include "csc_utils.h"
#include "kkt.h"
static Mat P, A;
static F q[MX], l[MX], u[MX];
static OSQPSettings s;
static I n, m;

static I arm(I count) { I k = sym_split(sym_int("k", 0, count - 1)); sym_fail_at(k, 0); return k; }

static void setup_fails(void) {
  OSQPSolver* sv = 0; I rc, base = sym_heap_live(), mb = sym_model_live(), c0 = sym_alloc_count(), cnt;
  rc = osqp_setup(&sv, &P.M, q, &A.M, l, u, m, n, &s);
  cnt = sym_alloc_count() - c0;
  sym_check(rc == 0, "setup-ok");
  osqp_cleanup(sv);
  sym_check(sym_heap_live() == base && sym_model_live() == mb, "P23.leak-without-failure");
  sv = 0;
  arm(cnt);
  rc = osqp_setup(&sv, &P.M, q, &A.M, l, u, m, n, &s);
  sym_fail_at(-1, 0);
  sym_cover("setup-failed");
  sym_check(rc != 0, "P23.setup-rc");
  sym_check(rc == OSQP_MEM_ALLOC_ERROR || rc == OSQP_LINSYS_SOLVER_INIT_ERROR, "P23.setup-code");
  rc = osqp_cleanup(sv);
  sym_check(rc == 0, "P23.cleanup-rc");
  sym_check(sym_heap_live() == base && sym_model_live() == mb, "P23.setup-leak");
  /* nothing is left behind that would hinder another attempt */
  sv = 0;
  rc = osqp_setup(&sv, &P.M, q, &A.M, l, u, m, n, &s);
  sym_check(rc == 0, "P23.second-setup");
  sym_check(osqp_solve(sv) == 0, "P23.second-solve");
  osqp_cleanup(sv);
  sym_check(sym_heap_live() == base && sym_model_live() == mb, "P23.final-leak");
}
/* every call on a finished solver */
static I call(OSQPSolver* sv, I op, F* v) {
  switch (op) {
    case 0: return osqp_solve(sv);
    case 1: return osqp_update_data_vec(sv, v, 0, 0);
    case 2: return osqp_update_data_vec(sv, 0, l, u);
    case 3: return osqp_update_data_mat(sv, P.nnz ? P.x : 0, 0, 0, A.nnz ? A.x : 0, 0, 0);
    case 4: return osqp_update_rho(sv, 0.75);
    case 5: return osqp_warm_start(sv, v, 0);
    case 6: { OSQPSettings t = s; t.alpha = 1.25; t.cg_precond = OSQP_NO_PRECONDITIONER; return osqp_update_settings(sv, &t); }
    default: return 0;
  }
}
static void calls_fail(void) {
  OSQPSolver *sv = 0, *s2 = 0; I rc, base = sym_heap_live(), mb = sym_model_live(), c0, cnt, op = sym_param("op", 0), h, i; F v[MX];
  for (i = 0; i < MX; i++) v[i] = 0.25;
  rc = osqp_setup(&sv, &P.M, q, &A.M, l, u, m, n, &s);
  sym_check(rc == 0, "setup-ok");
  c0 = sym_alloc_count();
  rc = call(sv, op, v);
  cnt = sym_alloc_count() - c0;
  sym_check(rc == 0, "P23.op-rc");
  osqp_cleanup(sv); sv = 0;
  if (cnt == 0) { sym_cover("no-allocations"); return; }
  rc = osqp_setup(&s2, &P.M, q, &A.M, l, u, m, n, &s);
  sym_check(rc == 0, "setup-ok");
  h = sym_heap_live();
  arm(cnt);
  rc = call(s2, op, v);
  sym_fail_at(-1, 0);
  sym_cover("call-failed");
  sym_check(rc != 0, "P23.call-rc");
  sym_check(sym_heap_live() == h, "P23.call-leak");
  sym_check(call(s2, op, v) == 0, "P23.call-again");
  osqp_cleanup(s2);
  sym_check(sym_heap_live() == base && sym_model_live() == mb, "P23.cleanup-leak");
}
/* public constructors and internal ones, each returning an object or nothing at all */
static I map1[MX * MX], map2[MX * MX], map3[MX], perm[MX], rows[MX] = {1, 0, 1, 0, 0, 0};
static OSQPMatrix* om; static OSQPVectori* ov; static OSQPCscMatrix* trip;
static void* make(I what, F* vec) {
  switch (what) {
    case 0:  return OSQPCscMatrix_new(m, n, A.nnz, A.x, A.i, A.p);
    case 1:  return OSQPCscMatrix_identity(n);
    case 2:  return OSQPCscMatrix_diag_scalar(m, n, 2.0);
    case 3:  return OSQPCscMatrix_diag_vec(m, n, vec);
    case 4:  return OSQPCscMatrix_zeros(m, n);
    case 5:  return OSQPSettings_new();
    case 6:  return OSQPCodegenDefines_new();
    case 7:  return csc_submatrix_byrows(&A.M, rows);
    case 8:  return triplet_to_csc(trip, map1);
    case 9:  return triplet_to_csr(trip, map1);
    case 10: return csc_symperm(&P.M, perm, map1, 1);
    case 11: return csc_pinv(perm, n);
    case 12: return csc_copy(&A.M);
    case 13: return csc_to_dns(&A.M);
    case 14: return triu_to_csc(&P.M);
    case 15: return vstack(&A.M, &A.M);
    case 16: return form_KKT(&P.M, &A.M, 0, 0.5, 0, 0.25, map1, map2, map3);
    case 17: return form_KKT(&P.M, &A.M, 1, 0.5, vec, 0.25, map1, map2, map3);
    case 18: return OSQPMatrix_new_from_csc(&A.M, 0);
    case 19: return OSQPMatrix_new_from_csc(&P.M, 1);
    case 20: return OSQPMatrix_submatrix_byrows(om, ov);
    case 21: return OSQPMatrix_get_csc(om);
    case 22: return OSQPVectorf_new(vec, n);
    case 23: return OSQPVectori_new(perm, n);
    case 24: return OSQPVectorf_calloc(n);
    case 25: return OSQPVectori_calloc(n);
    default: return 0;
  }
}
static void drop(I what, void* o) {
  switch (what) {
    case 0: case 1: case 2: case 3: case 4: OSQPCscMatrix_free(o); break;
    case 5: OSQPSettings_free(o); break;
    case 6: OSQPCodegenDefines_free(o); break;
    case 11: case 13: free(o); break;
    case 18: case 19: case 20: OSQPMatrix_free(o); break;
    case 22: case 24: OSQPVectorf_free(o); break;
    case 23: case 25: OSQPVectori_free(o); break;
    default: csc_spfree(o);
  }
}
static void constructors(void) {
  I i, j, what = sym_split(sym_int("ctor", sym_param("lo", 0), sym_param("hi", 25))), base, mb, c0, cnt; void* o; F vec[MX];
  if (what == 9 && m > n) return; /* only used for square matrices */
  for (i = 0; i < MX; i++) vec[i] = 1.0 + (F)i;
  for (i = 0; i < n; i++) perm[i] = n - 1 - i;
  om = OSQPMatrix_new_from_csc(&A.M, 0);
  ov = OSQPVectori_new(rows, m);
  trip = csc_spalloc(m, n, A.nnz, 1, 1);
  trip->nz = 0;
  for (j = 0; j < n; j++) for (i = A.p[j]; i < A.p[j + 1]; i++) { trip->i[trip->nz] = A.i[i]; trip->p[trip->nz] = j; trip->x[trip->nz++] = A.x[i]; }
  base = sym_heap_live(); mb = sym_model_live();
  c0 = sym_alloc_count();
  o = make(what, vec);
  cnt = sym_alloc_count() - c0;
  sym_check(o != 0, "P23.make");
  drop(what, o);
  sym_check(sym_heap_live() == base && sym_model_live() == mb, "P23.make-leak");
  if (!cnt) return;
  arm(cnt);
  o = make(what, vec);
  sym_fail_at(-1, 0);
  sym_cover("constructor-failed");
  sym_check(o == 0, "P23.make-failed");
  if (o) drop(what, o);
  sym_check(sym_heap_live() == base && sym_model_live() == mb, "P23.failed-make-leak");
}
void harness(void) {
  I i;
  n = sym_param("n", 1); m = sym_param("m", 1);
  mk_mat(&P, n, n, sym_param("Pm", 1), "P", 1);
  mk_mat(&A, m, n, sym_param("Am", 1), "A", 0);
  for (i = 0; i < n; i++) q[i] = symd("q", i, -1);
  mk_bounds(l, u, m, "l", "u", sym_param("types", 0));
  mk_settings(&s);
  switch (sym_param("what", 0)) { case 0: setup_fails(); break; case 1: calls_fail(); break; case 2: constructors(); break; }
}
