/* P36: equivalent problems get equivalent answers.  The second solver gets the same problem with its constraints and
   variables reordered and negated, or with zero entries stored instead of left out; every call is made on both, and every
   answer must be the first one's, reordered and negated in the same way. */
#include "internal.h"
static I n, m, pv[MX], pc[MX];
static F sv_[MX], sc_[MX];
static Mat P, A, P2, A2;
static F q[MX], l[MX], u[MX], q2[MX], l2[MX], u2[MX], xs[MX], ys[MX], xs2[MX], ys2[MX];
static OSQPSolver *a, *b;

static void vars(const F* s, F* t) { I j; for (j = 0; j < n; j++) t[j] = sv_[j] * s[pv[j]]; }
static void cons(const F* s, F* t) { I i; for (i = 0; i < m; i++) t[i] = sc_[i] * s[pc[i]]; }
static void bounds(const F* s, const F* t, F* s2, F* t2) {
  I i;
  for (i = 0; i < m; i++) {
    s2[i] = sc_[i] > 0.0 ? s[pc[i]] : -t[pc[i]];
    t2[i] = sc_[i] > 0.0 ? t[pc[i]] : -s[pc[i]];
  }
}
/* the CSC matrix of the dense values d with the entries in mask */
static void from(Mat* M, I r, I c, long long mask, I triu) {
  I i, j, k = 0;
  for (j = 0; j < c; j++) {
    M->p[j] = k;
    for (i = 0; i < r; i++) {
      if (triu && i > j) continue;
      if (!((mask >> (i + j * r)) & 1)) continue;
      M->i[k] = i; M->x[k] = M->d[i][j]; k++;
    }
  }
  M->p[c] = k; M->nnz = k;
  M->M.m = r; M->M.n = c; M->M.p = M->p; M->M.i = M->i; M->M.x = M->x; M->M.nzmax = k; M->M.nz = -1; M->M.owned = 0;
}
static long long mask2(long long mask, I r, I c, const I* pr, const I* pc_, I triu) { /* the reordered pattern */
  long long k = 0; I i, j, s, t, w;
  for (j = 0; j < c; j++) for (i = 0; i < r; i++) {
    s = pr[i]; t = pc_[j];
    if (triu && i > j) continue;
    if (triu && s > t) { w = s; s = t; t = w; }
    if ((mask >> (s + t * r)) & 1) k |= 1LL << (i + j * r);
  }
  return k;
}
static void both(I op) {
  I i, j, rc = 0, rc2 = 0; F v[MX], w[MX], z[MX], v2[MX], w2[MX], z2[MX];
  if (op == 1) { rc = osqp_solve(a); rc2 = osqp_solve(b); sym_check(rc == rc2, "P36.rc"); return; }
  if (op == 2) { for (j = 0; j < n; j++) v[j] = symd("q1", j, -1); vars(v, v2); rc = osqp_update_data_vec(a, v, 0, 0); rc2 = osqp_update_data_vec(b, v2, 0, 0); }
  if (op == 3) { mk_bounds(w, z, m, "l1", "u1", sym_param("types1", 0)); bounds(w, z, w2, z2); rc = osqp_update_data_vec(a, 0, w, z); rc2 = osqp_update_data_vec(b, 0, w2, z2); }
  if (op == 4) { /* one side only: the other side of the negated rows */
    for (i = 0; i < m; i++) { w[i] = symd("l1", i, -1); sym_assume(w[i] < u[i]); }
    bounds(w, u, w2, z2);
    for (i = 0, rc = 1; i < m; i++) if (sc_[i] < 0.0) rc = 0;
    for (i = 0, rc2 = 1; i < m; i++) if (sc_[i] > 0.0) rc2 = 0;
    sym_check(osqp_update_data_vec(a, 0, w, 0) == 0, "P36.rc-lower");
    rc2 = osqp_update_data_vec(b, 0, rc2 ? 0 : w2, rc ? 0 : z2); rc = 0;
  }
  if (op == 5) { rc = osqp_warm_start(a, xs, ys); rc2 = osqp_warm_start(b, xs2, ys2); }
  if (op == 6) { rc = osqp_update_rho(a, 0.125); rc2 = osqp_update_rho(b, 0.125); }
  sym_check(rc == 0 && rc2 == 0, "P36.update-rc");
}
static void eqv(const F* s, const F* t, I k, const char* lab) { I i; for (i = 0; i < k; i++) sym_check_eq(s[i], t[i], lab); }

void harness(void) {
  I i, j, rc, ops = sym_param("ops", 1), k; long long vp, vs, cp, cs; F t[MX]; OSQPSettings s;
  long long Pm = sym_param("Pm", 15), Am = sym_param("Am", 15);
  n = sym_param("n", 2); m = sym_param("m", 2);
  vp = sym_param("vp", 10); vs = sym_param("vs", 0); cp = sym_param("cp", 10); cs = sym_param("cs", 0);
  for (j = 0; j < n; j++) { pv[j] = vp % 10; vp /= 10; sv_[j] = vs % 10 ? -1.0 : 1.0; vs /= 10; }
  for (i = 0; i < m; i++) { pc[i] = cp % 10; cp /= 10; sc_[i] = cs % 10 ? -1.0 : 1.0; cs /= 10; }
  mk_mat(&P, n, n, Pm, "P", 1);
  mk_mat(&A, m, n, Am, "A", 0);
  for (j = 0; j < n; j++) { q[j] = symd("q", j, -1); xs[j] = symd("x0", j, -1); }
  for (i = 0; i < m; i++) ys[i] = symd("y0", i, -1);
  mk_bounds(l, u, m, "l", "u", sym_param("types", 0));
  for (i = 0; i < MX; i++) for (j = 0; j < MX; j++) P2.d[i][j] = A2.d[i][j] = 0.0;
  for (i = 0; i < n; i++) for (j = 0; j < n; j++) P2.d[i][j] = sv_[i] * sv_[j] * P.d[pv[i]][pv[j]];
  for (i = 0; i < m; i++) for (j = 0; j < n; j++) A2.d[i][j] = sc_[i] * sv_[j] * A.d[pc[i]][pv[j]];
  k = sym_param("fill", 0); /* store all entries, zero or not */
  from(&P2, n, n, k ? -1LL : mask2(Pm, n, n, pv, pv, 1), 1);
  from(&A2, m, n, k ? -1LL : mask2(Am, m, n, pc, pv, 0), 0);
  vars(q, q2); bounds(l, u, l2, u2); vars(xs, xs2); cons(ys, ys2);
  mk_settings(&s);
  rc = osqp_setup(&a, &P.M, q, &A.M, l, u, m, n, &s);
  sym_check(osqp_setup(&b, &P2.M, q2, &A2.M, l2, u2, m, n, &s) == rc, "P36.setup-rc");
  sym_check(rc == 0, "P36.setup");
  if (rc) return;
  for (; ops; ops /= 10) both(ops % 10);
  sym_cover("compared");
  sym_check(a->info->status_val == b->info->status_val, "P36.status");
  sym_check(a->info->iter == b->info->iter, "P36.iter");
  j = a->info->status_val;
  if (j == OSQP_SOLVED || j == OSQP_SOLVED_INACCURATE || j == OSQP_MAX_ITER_REACHED) {
    sym_cover("point");
    vars(a->solution->x, t); eqv(b->solution->x, t, n, "P36.x");
    cons(a->solution->y, t); eqv(b->solution->y, t, m, "P36.y");
  }
  if (a->info->status_val == OSQP_PRIMAL_INFEASIBLE || a->info->status_val == OSQP_PRIMAL_INFEASIBLE_INACCURATE) {
    sym_cover("prim-cert"); cons(a->solution->prim_inf_cert, t); eqv(b->solution->prim_inf_cert, t, m, "P36.prim-cert");
  }
  if (a->info->status_val == OSQP_DUAL_INFEASIBLE || a->info->status_val == OSQP_DUAL_INFEASIBLE_INACCURATE) {
    sym_cover("dual-cert"); vars(a->solution->dual_inf_cert, t); eqv(b->solution->dual_inf_cert, t, n, "P36.dual-cert");
  }
  sym_check_eq(a->info->obj_val, b->info->obj_val, "P36.obj");
  sym_check_eq(a->info->dual_obj_val, b->info->dual_obj_val, "P36.dual-obj");
  sym_check_eq(a->info->prim_res, b->info->prim_res, "P36.prim-res");
  sym_check_eq(a->info->dual_res, b->info->dual_res, "P36.dual-res");
  sym_check_eq(a->info->duality_gap, b->info->duality_gap, "P36.gap");
  sym_check_eq(a->info->rel_kkt_error, b->info->rel_kkt_error, "P36.rel-kkt");
  if (sym_param("chkrho", 0)) sym_check_eq(a->info->rho_estimate, b->info->rho_estimate, "P36.rho-estimate");
  sym_check(a->info->status_polish == b->info->status_polish, "P36.polish-status");
  if (a->info->status_polish == OSQP_POLISH_SUCCESS) sym_cover("polished");
  sym_check(a->info->rho_updates == b->info->rho_updates, "P36.rho-updates");
  sym_observe_int("status", a->info->status_val);
  for (j = 0; j < n; j++) { obs("x", j, a->solution->x[j]); obs("x2", j, b->solution->x[j]); }
  for (i = 0; i < m; i++) { obs("y", i, a->solution->y[i]); obs("y2", i, b->solution->y[i]); }
}
