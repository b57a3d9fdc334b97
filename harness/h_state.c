/* The state after setup and updates (P16, P17), polishing (P18), solution queries (P19), caller data (P21), memory (P22) */
#include "internal.h"
#include "auxil.h"
#include "scaling.h"
static Mat P, A, P2, A2;
static F q[MX], l[MX], u[MX];
static OSQPSettings s;
static OSQPSolver *sv, *s2;
static I n, m;
static int is_nan(F v) { return v != v || v == OSQP_NAN; }

/* ---- P16 ---------------------------------------------------------------------------------------------------- */
static void extb(I k) {
  I i; char a[4], b[4];
  a[0] = 'l'; b[0] = 'u'; a[1] = b[1] = (char)('0' + k); a[2] = b[2] = 0;
  for (i = 0; i < m; i++) {
    char s1[16], s2_[16];
    nm(s1, a, i, -1); nm(s2_, b, i, -1);
    l[i] = sym_ext(s1, 1 | 4); u[i] = sym_ext(s2_, 1 | 2);
    sym_assume(l[i] <= u[i]);
    if (sym_param("nonneg", 0)) { sym_assume(l[i] >= 0.0); }
  }
}
static void steps(I k) {
  I i; OSQPWorkspace* w = sv->work; F big = OSQP_INFTY * OSQP_MIN_SCALING, rho = s.rho, rv[MX], ri[MX], b[2 * MX], o[2 * MX], x[MX], zt[MX], t[MX], Px[MX], Ax[MX];
  OSQPVectorf* v;
  char nb[4];
  rho = fmin_(fmax_(rho, 1e-6), 1e6);
  sym_check_eq(sv->settings->rho, rho, "P16.clipped");
  for (i = 0; i < m; i++) {
    if (!s.rho_is_vec) rv[i] = rho;
    else if (l[i] < -big && u[i] > big) rv[i] = 1e-6;
    else if (u[i] - l[i] < 1e-4) rv[i] = 1e3 * rho;
    else rv[i] = rho;
  }
  sym_cover("steps");
  if (s.rho_is_vec) {
    getv(w->rho_vec, 0, m, t); getv(w->rho_inv_vec, 0, m, ri);
    for (i = 0; i < m; i++) { chk_eq(t[i], rv[i], "P16.rho_vec", i, -1); chk_eq(ri[i] * rv[i], 1.0, "P16.rho_inv_vec", i, -1); }
  }
  else chk_eq(w->rho_inv * rho, 1.0, "P16.rho_inv", -1, -1);
  if (!sym_param("lin", 1)) return;
  nb[0] = 'b'; nb[1] = (char)('0' + k); nb[2] = 0;
  for (i = 0; i < n + m; i++) b[i] = symd(nb, i, -1);
  v = OSQPVectorf_malloc(n + m);
  putv(v, b, n + m);
  sym_check(w->linsys_solver->solve(w->linsys_solver, v, 1) == 0, "P16.linsys-rc");
  getv(v, 0, n + m, o);
  OSQPVectorf_free(v);
  for (i = 0; i < n; i++) x[i] = o[i];
  for (i = 0; i < m; i++) zt[i] = o[n + i];
  mulv(&A, m, n, x, Ax); mulv(&P, n, n, x, Px);
  for (i = 0; i < m; i++) { chk_eq(zt[i], Ax[i], "P16.zt", i, -1); t[i] = rv[i] * (zt[i] - b[n + i]); }
  mulTv(&A, m, n, t, Ax);
  for (i = 0; i < n; i++) chk_eq(Px[i] + s.sigma * x[i] + Ax[i], b[i], "P16.x-equation", i, -1);
}
static void p16(void) {
  I rc, seq, k = 0; F r, v[MX]; I i;
  extb(0);
  if (sym_param("symrho", 0)) s.rho = sym_pos("rho");
  rc = osqp_setup(&sv, &P.M, q, &A.M, l, u, m, n, &s);
  sym_check(rc == 0, "setup-ok");
  if (rc) return;
  for (seq = sym_param("seq", 0); seq; seq /= 10) {
    k++;
    switch (seq % 10) {
      case 1: extb(k); rc = osqp_update_data_vec(sv, 0, l, u); break;
      case 2: r = sym_pos("rho1"); s.rho = r; rc = osqp_update_rho(sv, r); break;
      case 3: r = sym_paramd("rho1", 1e-9); s.rho = r; rc = osqp_update_rho(sv, r); break;
      case 4: for (i = 0; i < m; i++) { char a[16]; nm(a, "l9", i, -1); l[i] = sym_ext(a, 5); sym_assume(l[i] <= u[i]); } rc = osqp_update_data_vec(sv, 0, l, 0); break;
      case 5: for (i = 0; i < m; i++) { char a[16]; nm(a, "u9", i, -1); u[i] = sym_ext(a, 3); sym_assume(l[i] <= u[i]); } rc = osqp_update_data_vec(sv, 0, 0, u); break;
      case 6: for (i = 0; i < A.nnz; i++) v[i] = A.x[i] = 2.0 + (F)i; for (i = 0; i < m; i++) A.d[i][0] = 2.0 + (F)i; rc = osqp_update_data_mat(sv, 0, 0, 0, v, 0, 0); break;
      case 7: rc = osqp_solve(sv); break;
    }
    sym_check(rc == 0, "P16.op-rc");
  }
  steps(k);
}
/* ---- P17 ---------------------------------------------------------------------------------------------------- */
static void column(const OSQPMatrix* M, I rows, I cols, I j, F* out) {
  OSQPVectorf *e = OSQPVectorf_calloc(cols), *r = OSQPVectorf_calloc(rows); F v[MX]; I i;
  for (i = 0; i < cols; i++) v[i] = i == j ? 1.0 : 0.0;
  putv(e, v, cols);
  OSQPMatrix_Axpy(M, e, r, 1.0, 0.0);
  getv(r, 0, rows, out);
  OSQPVectorf_free(e); OSQPVectorf_free(r);
}
static void p17(void) {
  I rc, i, j, k; OSQPWorkspace* w; F D[MX], E[MX], Di[MX], Ei[MX], v[MX], c, lo, hi, lc;
  mk_bounds(l, u, m, "l", "u", sym_param("types", 0));
  rc = osqp_setup(&sv, &P.M, q, &A.M, l, u, m, n, &s);
  sym_check(rc == 0, "setup-ok");
  if (rc) return;
  w = sv->work;
  getv(w->scaling->D, 0, n, D); getv(w->scaling->E, 0, m, E); getv(w->scaling->Dinv, 0, n, Di); getv(w->scaling->Einv, 0, m, Ei);
  c = w->scaling->c;
  sym_cover("scaled");
  lo = hi = lc = 1.0;
  for (k = 0; k < s.scaling; k++) { lo *= 1e-2; hi *= 1e2; lc *= 1e-4; }
  lo *= 1.0 - 1e-9; hi *= 1.0 + 1e-9; lc *= 1.0 - 1e-9; /* rounding of square roots */
  sym_check(c > 0.0, "P17.c-positive");
  sym_check_le(lc, c, "P17.c-low"); sym_check_le(c * lc, 1.0, "P17.c-high");
  chk_eq(w->scaling->cinv * c, 1.0, "P17.cinv", -1, -1);
  for (i = 0; i < n; i++) { sym_check(D[i] > 0.0, "P17.D-positive"); sym_check_le(lo, D[i], "P17.D-low"); sym_check_le(D[i], hi, "P17.D-high"); chk_eq(D[i] * Di[i], 1.0, "P17.Dinv", i, -1); }
  for (i = 0; i < m; i++) { sym_check(E[i] > 0.0, "P17.E-positive"); sym_check_le(lo, E[i], "P17.E-low"); sym_check_le(E[i], hi, "P17.E-high"); chk_eq(E[i] * Ei[i], 1.0, "P17.Einv", i, -1); }
  for (j = 0; j < n; j++) { column(w->data->P, n, n, j, v); for (i = 0; i < n; i++) chk_eq(v[i], c * D[i] * P.d[i][j] * D[j], "P17.P", i, j); }
  for (j = 0; j < n; j++) { column(w->data->A, m, n, j, v); for (i = 0; i < m; i++) chk_eq(v[i], E[i] * A.d[i][j] * D[j], "P17.A", i, j); }
  getv(w->data->q, 0, n, v); for (i = 0; i < n; i++) chk_eq(v[i], c * D[i] * q[i], "P17.q", i, -1);
  getv(w->data->l, 0, m, v); for (i = 0; i < m; i++) chk_eq(v[i], E[i] * l[i], "P17.l", i, -1);
  getv(w->data->u, 0, m, v); for (i = 0; i < m; i++) chk_eq(v[i], E[i] * u[i], "P17.u", i, -1);
  if (sym_param("cost", 0)) { /* after the last pass, the larger of mean column norm of P and norm of q is 1, up to the limits */
    F s_ = 0.0, qn;
    for (j = 0; j < n; j++) { F cn = 0.0; for (i = 0; i < n; i++) cn = fmax_(cn, fabs_(c * D[i] * P.d[i][j] * D[j])); s_ += cn; }
    s_ = s_ / (F)n;
    qn = 0.0; for (i = 0; i < n; i++) qn = fmax_(qn, fabs_(c * D[i] * q[i]));
    chk_eq(fmax_(s_, qn), 1.0, "P17.cost-normalised", -1, -1);
  }
  if (sym_param("upd", 0)) { /* updated vectors go through the same change of variables */
    F q1[MX], l1[MX], u1[MX];
    for (i = 0; i < n; i++) q1[i] = symd("q1", i, -1);
    mk_bounds(l1, u1, m, "l1", "u1", sym_param("types", 0));
    rc = osqp_update_data_vec(sv, q1, l1, u1);
    sym_check(rc == 0, "P17.update-rc");
    getv(w->data->q, 0, n, v); for (i = 0; i < n; i++) { chk_eq(v[i], c * D[i] * q1[i], "P17.q-updated", i, -1); q[i] = q1[i]; }
    getv(w->data->l, 0, m, v); for (i = 0; i < m; i++) { chk_eq(v[i], E[i] * l1[i], "P17.l-updated", i, -1); l[i] = l1[i]; }
    getv(w->data->u, 0, m, v); for (i = 0; i < m; i++) { chk_eq(v[i], E[i] * u1[i], "P17.u-updated", i, -1); u[i] = u1[i]; }
  }
  if (sym_param("mat", 0)) { /* so do matrices, whatever the new scaling */
    F a1[MX], p1[MX];
    for (i = 0; i < P.nnz; i++) p1[i] = sym_paramd("p1", 64.0);
    for (i = 0; i < A.nnz; i++) a1[i] = sym_paramd("a1", -16.0);
    rc = osqp_update_data_mat(sv, p1, 0, 0, a1, 0, 0);
    sym_check(rc == 0, "P17.update-mat-rc");
    getv(w->scaling->D, 0, n, D); getv(w->scaling->E, 0, m, E); c = w->scaling->c;
    P.d[0][0] = p1[0]; A.d[0][0] = a1[0];
    column(w->data->P, n, n, 0, v); chk_eq(v[0], c * D[0] * p1[0] * D[0], "P17.P-updated", -1, -1);
    column(w->data->A, m, n, 0, v); chk_eq(v[0], E[0] * a1[0] * D[0], "P17.A-updated", -1, -1);
    getv(w->data->q, 0, n, v); chk_eq(v[0], c * D[0] * q[0], "P17.q-rescaled", -1, -1);
    getv(w->data->l, 0, m, v); chk_eq(v[0], E[0] * l[0], "P17.l-rescaled", -1, -1);
    getv(w->data->u, 0, m, v); chk_eq(v[0], E[0] * u[0], "P17.u-rescaled", -1, -1);
  }
  unscale_data(sv);
  for (j = 0; j < n; j++) { column(w->data->P, n, n, j, v); for (i = 0; i < n; i++) chk_eq(v[i], P.d[i][j], "P17.P-restored", i, j); }
  for (j = 0; j < n; j++) { column(w->data->A, m, n, j, v); for (i = 0; i < m; i++) chk_eq(v[i], A.d[i][j], "P17.A-restored", i, j); }
  getv(w->data->q, 0, n, v); for (i = 0; i < n; i++) chk_eq(v[i], q[i], "P17.q-restored", i, -1);
  getv(w->data->l, 0, m, v); for (i = 0; i < m; i++) chk_eq(v[i], l[i], "P17.l-restored", i, -1);
  getv(w->data->u, 0, m, v); for (i = 0; i < m; i++) chk_eq(v[i], u[i], "P17.u-restored", i, -1);
}
/* ---- P18 ---------------------------------------------------------------------------------------------------- */
static void userv(OSQPSolver* o, F* x, F* z, F* y) {
  OSQPWorkspace* w = o->work; I i;
  getv(w->x, w->scaling ? w->scaling->D : 0, n, x);
  getv(w->z, w->scaling ? w->scaling->Einv : 0, m, z);
  getv(w->y, w->scaling ? w->scaling->E : 0, m, y);
  if (w->scaling) for (i = 0; i < m; i++) y[i] = y[i] * w->scaling->cinv;
}
static void p18(void) {
  I rc, i, st, ps, act = 0; OSQPInfo *a, *b; F x[MX], z[MX], y[MX], x1[MX], z1[MX], y1[MX], Ax[MX], Px[MX], Aty[MX], r[MX], pr, dr, xpx, qx, sc = 0.0;
  I flag[MX];
  mk_bounds(l, u, m, "l", "u", sym_param("types", 0));
  s.polishing = 0;
  rc = osqp_setup(&sv, &P.M, q, &A.M, l, u, m, n, &s);
  s.polishing = 1;
  rc += osqp_setup(&s2, &P.M, q, &A.M, l, u, m, n, &s);
  sym_check(rc == 0, "setup-ok");
  if (rc) return;
  if (sym_param("ws", 0)) {
    F a0[MX], b0[MX];
    for (i = 0; i < n; i++) a0[i] = symd("x0", i, -1);
    for (i = 0; i < m; i++) b0[i] = symd("y0", i, -1);
    osqp_warm_start(sv, a0, b0); osqp_warm_start(s2, a0, b0);
  }
  rc = osqp_solve(sv); sym_check(rc == 0, "P18.rc1");
  rc = osqp_solve(s2); sym_check(rc == 0, "P18.rc2");
  a = sv->info; b = s2->info; st = a->status_val; ps = b->status_polish;
  sym_check(a->status_val == b->status_val, "P18.status");
  sym_check(a->status_polish == OSQP_POLISH_NOT_PERFORMED, "P18.off-status");
  sym_observe_int("status", st); sym_observe_int("polish", ps);
  userv(sv, x1, z1, y1); userv(s2, x, z, y);
  if (st == OSQP_SOLVED) {
    for (i = 0; i < m; i++) { /* documented guess */
      F es = sym_param("escale", 1); (void)es;
      flag[i] = 0;
      if (z1[i] - l[i] < -y1[i] || l[i] == u[i]) flag[i] = -1; else if (u[i] - z1[i] < y1[i]) flag[i] = 1;
      if (flag[i]) act++;
    }
    if (!s.scaling) sym_check((act == 0) == (ps == OSQP_POLISH_NO_ACTIVE_SET_FOUND), "P18.no-active-set");
    sym_check(ps == OSQP_POLISH_SUCCESS || ps == OSQP_POLISH_FAILED || ps == OSQP_POLISH_NO_ACTIVE_SET_FOUND, "P18.polish-status");
  }
  else sym_check(ps == OSQP_POLISH_NOT_PERFORMED, "P18.not-performed");
  if (n == 1 && m == 1 && st == OSQP_SOLVED && act && sym_param("exact", 0) && !s.scaling) { /* the candidate from the documentation */
    F p_ = P.d[0][0], g = A.d[0][0], d = s.delta, b1 = -q[0], b2 = flag[0] == -1 ? l[0] : u[0], w1, w2, e1, e2, det = (p_ + d) * (-d) - g * g; I k;
    w1 = (b1 * (-d) - g * b2) / det; w2 = ((p_ + d) * b2 - g * b1) / det;
    for (k = 0; k < s.polish_refine_iter; k++) {
      e1 = b1 - p_ * w1 - g * w2; e2 = b2 - g * w1;
      w1 += (e1 * (-d) - g * e2) / det; w2 += ((p_ + d) * e2 - g * e1) / det;
    }
    { F zc = g * w1, yc = w2 + zc, zp = fmin_(fmax_(yc, l[0]), u[0]), yp = yc - zp, prc = fabs_(g * w1 - zp), drc = fabs_(p_ * w1 + q[0] + g * yp);
      if (ps == OSQP_POLISH_SUCCESS) {
        sym_cover("exact");
        chk_eq(x[0], w1, "P18.exact-x", -1, -1); chk_eq(z[0], zp, "P18.exact-z", -1, -1); chk_eq(y[0], yp, "P18.exact-y", -1, -1);
      }
      if (ps == OSQP_POLISH_FAILED) sym_check(!(prc < a->prim_res - 1e-9 && drc < a->dual_res - 1e-9), "P18.rejected-improvement");
    }
  }
  if (ps == OSQP_POLISH_SUCCESS) {
    sym_cover("success");
    for (i = 0; i < n; i++) chk_eq(s2->solution->x[i], x[i], "P18.x-stored", i, -1);
    for (i = 0; i < m; i++) chk_eq(s2->solution->y[i], y[i], "P18.y-stored", i, -1);
    mulv(&A, m, n, x, Ax); mulv(&P, n, n, x, Px); mulTv(&A, m, n, y, Aty);
    for (i = 0; i < m; i++) r[i] = Ax[i] - z[i];
    pr = ninf(r, m);
    for (i = 0; i < n; i++) r[i] = Px[i] + q[i] + Aty[i];
    dr = ninf(r, n);
    for (i = 0; i < m; i++) {
      sym_check_le(l[i], z[i], "P18.z-ge-l"); sym_check_le(z[i], u[i], "P18.z-le-u");
      if (y[i] > 1e-9) sym_check_eq(z[i], u[i], "P18.y-pos-at-u");
      if (y[i] < -1e-9) sym_check_eq(z[i], l[i], "P18.y-neg-at-l");
    }
    sym_check_eq(b->prim_res, pr, "P18.prim_res"); sym_check_eq(b->dual_res, dr, "P18.dual_res");
    xpx = dot(x, Px, n); qx = dot(q, x, n);
    for (i = 0; i < m; i++) { if (u[i] < 1e26) sc += u[i] * fmax_(y[i], 0.0); if (l[i] > -1e26) sc += l[i] * fmin_(y[i], 0.0); }
    sym_check_eq(b->obj_val, 0.5 * xpx + qx, "P18.obj_val");
    if (sym_param("gap", 0)) {
      F g = b->duality_gap - (xpx + qx + sc);
      sym_check_le(g, 1e-8, "P18.gap"); sym_check_le(-g, 1e-8, "P18.gap");
      g = b->dual_obj_val - (-0.5 * xpx - sc);
      sym_check_le(g, 1e-8, "P18.dual_obj"); sym_check_le(-g, 1e-8, "P18.dual_obj");
      sym_check_eq(b->rel_kkt_error, fmax_(fmax_(b->prim_res, b->dual_res), fabs_(b->duality_gap)), "P18.rel_kkt");
    }
    sym_check((b->prim_res < a->prim_res && b->dual_res < a->dual_res) || (b->prim_res < a->prim_res && a->dual_res < 1e-10) ||
              (b->dual_res < a->dual_res && a->prim_res < 1e-10), "P18.not-better");
  }
  else {
    sym_cover(ps == OSQP_POLISH_FAILED ? "failed" : "untouched");
    for (i = 0; i < n; i++) { chk_eq(s2->solution->x[i], sv->solution->x[i], "P18.x-kept", i, -1); chk_eq(x[i], x1[i], "P18.wx-kept", i, -1); }
    for (i = 0; i < m; i++) { chk_eq(s2->solution->y[i], sv->solution->y[i], "P18.y-kept", i, -1); chk_eq(y[i], y1[i], "P18.wy-kept", i, -1); chk_eq(z[i], z1[i], "P18.wz-kept", i, -1); }
    sym_check_eq(a->obj_val, b->obj_val, "P18.obj-kept"); sym_check_eq(a->prim_res, b->prim_res, "P18.prim-kept"); sym_check_eq(a->dual_res, b->dual_res, "P18.dual-kept");
    sym_check_eq(a->duality_gap, b->duality_gap, "P18.gap-kept"); sym_check_eq(a->dual_obj_val, b->dual_obj_val, "P18.dualobj-kept");
    sym_check_eq(a->rel_kkt_error, b->rel_kkt_error, "P18.kkt-kept"); sym_check_eq(a->primdual_int, b->primdual_int, "P18.int-kept");
  }
}
/* ---- P19 ---------------------------------------------------------------------------------------------------- */
static void cmpsol(const OSQPSolution* a, const OSQPSolution* b, const char* lab) {
  I i; (void)lab;
  for (i = 0; i < n; i++) { chk_eq(a->x[i], b->x[i], "P19.x", i, -1); chk_eq(a->dual_inf_cert[i], b->dual_inf_cert[i], "P19.dual-cert", i, -1); }
  for (i = 0; i < m; i++) { chk_eq(a->y[i], b->y[i], "P19.y", i, -1); chk_eq(a->prim_inf_cert[i], b->prim_inf_cert[i], "P19.prim-cert", i, -1); }
}
static void p19(void) {
  I rc, i, mm = -7, nn = -7, st; OSQPSolution o, o2; F b[8][MX], x0[MX], y0[MX];
  o.x = b[0]; o.y = b[1]; o.prim_inf_cert = b[2]; o.dual_inf_cert = b[3]; o2.x = b[4]; o2.y = b[5]; o2.prim_inf_cert = b[6]; o2.dual_inf_cert = b[7];
  for (i = 0; i < MX; i++) for (st = 0; st < 8; st++) b[st][i] = 55.0;
  osqp_get_dimensions(0, &mm, &nn);
  sym_check(mm == -1 && nn == -1, "P19.dims-null");
  sym_check(osqp_get_solution(0, &o) == OSQP_WORKSPACE_NOT_INIT_ERROR, "P19.null-solver");
  s2 = 0;
  mk_bounds(l, u, m, "l", "u", sym_param("types", 0));
  s.allocate_solution = sym_param("alloc", 1);
  rc = osqp_setup(&sv, &P.M, q, &A.M, l, u, m, n, &s);
  sym_check(rc == 0, "setup-ok");
  if (rc) return;
  osqp_get_dimensions(sv, &mm, &nn);
  sym_check(mm == m && nn == n, "P19.dims");
  sym_check(osqp_get_solution(sv, 0) != 0, "P19.null-solution");
  sym_check((sv->solution != 0) == (s.allocate_solution != 0), "P19.allocated");
  for (i = 0; i < n; i++) x0[i] = symd("x0", i, -1);
  for (i = 0; i < m; i++) y0[i] = symd("y0", i, -1);
  if (sym_param("pre", 1)) {
    rc = osqp_get_solution(sv, &o);
    sym_check(rc == 0, "P19.pre-rc");
    for (i = 0; i < n; i++) { chk_eq(o.x[i], 0.0, "P19.pre-x", i, -1); sym_check(is_nan(o.dual_inf_cert[i]), "P19.pre-dcert"); }
    for (i = 0; i < m; i++) { chk_eq(o.y[i], 0.0, "P19.pre-y", i, -1); sym_check(is_nan(o.prim_inf_cert[i]), "P19.pre-pcert"); }
    osqp_warm_start(sv, x0, y0);
    rc = osqp_get_solution(sv, &o);
    for (i = 0; i < n; i++) chk_eq(o.x[i], x0[i], "P19.warm-x", i, -1);
    for (i = 0; i < m; i++) chk_eq(o.y[i], y0[i], "P19.warm-y", i, -1);
  }
  sym_check(o.x[n] == 55.0 && o.y[m] == 55.0 && o.prim_inf_cert[m] == 55.0 && o.dual_inf_cert[n] == 55.0, "P19.out-of-range");
  { F k[4][MX]; I j;
    for (j = 0; j < 4; j++) for (i = 0; i < MX; i++) k[j][i] = b[j][i];
    rc = osqp_solve(sv);
    for (j = 0; j < 4; j++) for (i = 0; i < MX; i++) sym_check_eq(b[j][i], k[j][i], "P19.earlier-copy-changed");
    sym_check((sv->solution != 0) == (s.allocate_solution != 0), "P19.allocated-later");
  }
  sym_check(rc == 0, "P19.solve-rc");
  st = sv->info->status_val;
  sym_observe_int("status", st);
  sym_check(osqp_get_solution(sv, &o) == 0, "P19.rc");
  if (s.allocate_solution) { sym_cover("compared"); cmpsol(&o, sv->solution, "stored"); }
  sym_check(sv->info->status_val == st, "P19.status-kept");
  sym_check(osqp_get_solution(sv, &o2) == 0, "P19.rc2");
  cmpsol(&o, &o2, "twice");
  if (sym_param("twin", 0)) { /* a solver nobody queried during its solve, delivering the other way */
    OSQPSettings t = s; I k;
    t.allocate_solution = 1 - s.allocate_solution;
    sym_check(osqp_setup(&s2, &P.M, q, &A.M, l, u, m, n, &t) == 0, "setup-twin");
    if (sym_param("pre", 1)) osqp_warm_start(s2, x0, y0);
    for (k = 0; k < 1 + sym_param("again", 0); k++) {
      if (k) sym_check(osqp_solve(sv) == 0 && osqp_get_solution(sv, &o) == 0, "P19.again-rc");
      sym_check(osqp_solve(s2) == 0, "P19.twin-rc");
      sym_check(s2->info->status_val == sv->info->status_val, "P19.twin-status");
      if (t.allocate_solution) o2 = *s2->solution; else sym_check(osqp_get_solution(s2, &o2) == 0, "P19.twin-query");
      sym_cover("twin");
      for (i = 0; i < n; i++) { chk_eq(o.x[i], o2.x[i], "twin.x", i, -1); chk_eq(o.dual_inf_cert[i], o2.dual_inf_cert[i], "twin.dcert", i, -1); }
      for (i = 0; i < m; i++) { chk_eq(o.y[i], o2.y[i], "twin.y", i, -1); chk_eq(o.prim_inf_cert[i], o2.prim_inf_cert[i], "twin.pcert", i, -1); }
    }
    return;
  }
  if (st == OSQP_SOLVED || st == OSQP_MAX_ITER_REACHED || st == OSQP_SOLVED_INACCURATE) {
    for (i = 0; i < n; i++) sym_check(is_nan(o.dual_inf_cert[i]), "P19.dcert-nan");
    for (i = 0; i < m; i++) sym_check(is_nan(o.prim_inf_cert[i]), "P19.pcert-nan");
  }
  else {
    sym_cover("none");
    for (i = 0; i < n; i++) sym_check(is_nan(o.x[i]), "P19.x-nan");
    for (i = 0; i < m; i++) sym_check(is_nan(o.y[i]), "P19.y-nan");
  }
  if (sym_param("re", 0)) { /* a warm start given now survives further queries */
    F x1[MX], z1[MX], y1[MX];
    for (i = 0; i < n; i++) x0[i] = symd("x9", i, -1);
    for (i = 0; i < m; i++) y0[i] = symd("y9", i, -1);
    osqp_warm_start(sv, x0, y0);
    sym_check(osqp_get_solution(sv, &o2) == 0, "P19.rc3");
    sym_cover("requery");
    userv(sv, x1, z1, y1);
    for (i = 0; i < n; i++) chk_eq(x1[i], x0[i], "P19.x-disturbed", i, -1);
    for (i = 0; i < m; i++) chk_eq(y1[i], y0[i], "P19.y-disturbed", i, -1);
    sym_check(sv->info->status_val == st, "P19.status-disturbed");
  }
}
/* ---- P21 ---------------------------------------------------------------------------------------------------- */
typedef struct { OSQPCscMatrix *P, *A; F *q, *l, *u; OSQPSettings* s; } Data;
static void* dup_(const void* p, size_t k) { char* r = (char*)malloc(k ? k : 1); if (k) memcpy(r, p, k); return r; }
static OSQPCscMatrix* dupm(const Mat* M, I nn) {
  OSQPCscMatrix* c = (OSQPCscMatrix*)dup_(&M->M, sizeof *c);
  c->p = (I*)dup_(M->p, (nn + 1) * sizeof(I)); c->i = (I*)dup_(M->i, M->nnz * sizeof(I)); c->x = (F*)dup_(M->x, M->nnz * sizeof(F));
  return c;
}
static void samev(const F* a, const F* b, I k, const char* lab) { I i; for (i = 0; i < k; i++) sym_check_eq(a[i], b[i], lab); }
static void samem(const OSQPCscMatrix* c, const Mat* M, I nn, const char* lab) {
  I i;
  sym_check(c->m == M->M.m && c->n == M->M.n && c->nzmax == M->M.nzmax && c->nz == M->M.nz, lab);
  for (i = 0; i <= nn; i++) sym_check(c->p[i] == M->p[i], lab);
  for (i = 0; i < M->nnz; i++) { sym_check(c->i[i] == M->i[i], lab); sym_check_eq(c->x[i], M->x[i], lab); }
}
static void killm(OSQPCscMatrix* c, I fr) {
  I i, k = c->p[c->n], nn = c->n;
  for (i = 0; i < k; i++) { c->i[i] = 99; c->x[i] = 1e7; }
  for (i = 0; i <= nn; i++) c->p[i] = 77;
  c->m = c->n = -5;
  if (fr) { free(c->p); free(c->i); free(c->x); free(c); }
}
/* every field of the settings the caller passed, as they were before the call */
static void sames(const OSQPSettings* a, const OSQPSettings* b) {
  sym_check_eq(a->rho, b->rho, "P21.rho"); sym_check_eq(a->sigma, b->sigma, "P21.sigma"); sym_check_eq(a->alpha, b->alpha, "P21.alpha");
  sym_check_eq(a->eps_abs, b->eps_abs, "P21.eps"); sym_check_eq(a->eps_rel, b->eps_rel, "P21.eps"); sym_check_eq(a->eps_prim_inf, b->eps_prim_inf, "P21.eps"); sym_check_eq(a->eps_dual_inf, b->eps_dual_inf, "P21.eps");
  sym_check_eq(a->adaptive_rho_fraction, b->adaptive_rho_fraction, "P21.settings-real"); sym_check_eq(a->adaptive_rho_tolerance, b->adaptive_rho_tolerance, "P21.settings-real");
  sym_check_eq(a->time_limit, b->time_limit, "P21.settings-real"); sym_check_eq(a->delta, b->delta, "P21.settings-real"); sym_check_eq(a->cg_tol_fraction, b->cg_tol_fraction, "P21.settings-real");
  sym_check(a->adaptive_rho_interval == b->adaptive_rho_interval && a->adaptive_rho == b->adaptive_rho && a->scaling == b->scaling && a->max_iter == b->max_iter && a->polishing == b->polishing
            && a->rho_is_vec == b->rho_is_vec && a->verbose == b->verbose && a->warm_starting == b->warm_starting && a->check_termination == b->check_termination && a->scaled_termination == b->scaled_termination
            && a->check_dualgap == b->check_dualgap && a->linsys_solver == b->linsys_solver && a->allocate_solution == b->allocate_solution && a->cg_max_iter == b->cg_max_iter && a->cg_tol_reduction == b->cg_tol_reduction
            && a->cg_precond == b->cg_precond && a->polish_refine_iter == b->polish_refine_iter && a->device == b->device && a->profiler_level == b->profiler_level, "P21.settings");
}
static void killv(F* v, I k, I fr) { I i; for (i = 0; i < k; i++) v[i] = -3e5; if (fr) free(v); }
/* infinite bounds may be given by any value beyond 1e26, also ones beyond 1e30 */
static void huge(F* a, F* b) { I i; F k = sym_paramd("huge", 0.0); if (k > 0.0) for (i = 0; i < m; i++) { if (a[i] <= -1e26) a[i] = -k; if (b[i] >= 1e26) b[i] = k; } }
static void p21(void) {
  I rc, i, fr = sym_param("free", 1), op; Data d; OSQPSettings s0, s1 = s; F nq[MX], nl[MX], nu[MX], np[MX], na[MX], x0[MX], y0[MX]; I ix[MX], ia[MX];
  mk_bounds(l, u, m, "l", "u", sym_param("types", 0));
  huge(l, u);
  d.P = dupm(&P, n); d.A = dupm(&A, n); d.q = (F*)dup_(q, n * sizeof(F)); d.l = (F*)dup_(l, m * sizeof(F)); d.u = (F*)dup_(u, m * sizeof(F));
  d.s = (OSQPSettings*)dup_(&s, sizeof s);
  rc = osqp_setup(&sv, d.P, d.q, d.A, d.l, d.u, m, n, d.s);
  rc += osqp_setup(&s2, &P.M, q, &A.M, l, u, m, n, &s);
  sym_check(rc == 0, "setup-ok");
  samem(d.P, &P, n, "P21.P"); samem(d.A, &A, n, "P21.A"); samev(d.q, q, n, "P21.q"); samev(d.l, l, m, "P21.l"); samev(d.u, u, m, "P21.u");
  s0 = *d.s;
  sames(&s0, &s1); s = s1;
  killm(d.P, fr); killm(d.A, fr); killv(d.q, n, fr); killv(d.l, m, fr); killv(d.u, m, fr);
  d.s->rho = -1; d.s->alpha = 7; d.s->max_iter = -3; d.s->scaling = 44; d.s->rho_is_vec = 9; d.s->check_termination = 0; d.s->polishing = 1 - s.polishing; d.s->warm_starting = 0; d.s->sigma = 12;
  if (fr) free(d.s);
  sym_cover("detached");
  for (op = sym_param("seq", 0); op; op /= 10) {
    F *v1, *v2, *v3; I *j1, *j2;
    if (op % 10 == 1) { /* vectors */
      for (i = 0; i < n; i++) nq[i] = symd("nq", i, -1);
      mk_bounds(nl, nu, m, "nl", "nu", sym_param("types1", 0));
      huge(nl, nu);
      v1 = (F*)dup_(nq, n * sizeof(F)); v2 = (F*)dup_(nl, m * sizeof(F)); v3 = (F*)dup_(nu, m * sizeof(F));
      rc = osqp_update_data_vec(sv, v1, v2, v3); sym_check(rc == 0, "P21.rc-vec");
      samev(v1, nq, n, "P21.nq"); samev(v2, nl, m, "P21.nl"); samev(v3, nu, m, "P21.nu");
      killv(v1, n, fr); killv(v2, m, fr); killv(v3, m, fr);
      osqp_update_data_vec(s2, nq, nl, nu);
    }
    if (op % 10 == 2) { /* matrices with index lists */
      for (i = 0; i < P.nnz; i++) { np[i] = 5.0 + (F)i; ix[i] = P.nnz - 1 - i; }
      for (i = 0; i < A.nnz; i++) { na[i] = -2.0 - (F)i; ia[i] = A.nnz - 1 - i; }
      v1 = (F*)dup_(np, P.nnz * sizeof(F)); v2 = (F*)dup_(na, A.nnz * sizeof(F)); j1 = (I*)dup_(ix, P.nnz * sizeof(I)); j2 = (I*)dup_(ia, A.nnz * sizeof(I));
      rc = osqp_update_data_mat(sv, v1, j1, P.nnz, v2, j2, A.nnz); sym_check(rc == 0, "P21.rc-mat");
      samev(v1, np, P.nnz, "P21.np"); samev(v2, na, A.nnz, "P21.na");
      for (i = 0; i < P.nnz; i++) sym_check(j1[i] == ix[i], "P21.ix");
      for (i = 0; i < A.nnz; i++) sym_check(j2[i] == ia[i], "P21.ia");
      killv(v1, P.nnz, fr); killv(v2, A.nnz, fr);
      for (i = 0; i < P.nnz; i++) j1[i] = 900;
      for (i = 0; i < A.nnz; i++) j2[i] = 900;
      if (fr) { free(j1); free(j2); }
      osqp_update_data_mat(s2, np, ix, P.nnz, na, ia, A.nnz);
    }
    if (op % 10 == 3) { /* warm start */
      for (i = 0; i < n; i++) x0[i] = symd("x0", i, -1);
      for (i = 0; i < m; i++) y0[i] = symd("y0", i, -1);
      v1 = (F*)dup_(x0, n * sizeof(F)); v2 = (F*)dup_(y0, m * sizeof(F));
      rc = osqp_warm_start(sv, v1, v2); sym_check(rc == 0, "P21.rc-warm");
      samev(v1, x0, n, "P21.x0"); samev(v2, y0, m, "P21.y0");
      killv(v1, n, fr); killv(v2, m, fr);
      osqp_warm_start(s2, x0, y0);
    }
    if (op % 10 == 4) { /* settings */
      OSQPSettings t = s, *t1; t.alpha = 1.25; t.eps_abs = 0.25; t.max_iter = s.max_iter;
      t1 = (OSQPSettings*)dup_(&t, sizeof t);
      rc = osqp_update_settings(sv, t1); sym_check(rc == 0, "P21.rc-set");
      sames(t1, &t);
      t1->alpha = 9; t1->eps_abs = -4; t1->max_iter = 0;
      if (fr) free(t1);
      osqp_update_settings(s2, &t);
    }
    if (op % 10 == 5) { rc = osqp_solve(sv); osqp_solve(s2); }
  }
  rc = osqp_solve(sv);
  sym_check(osqp_solve(s2) == rc, "P21.solve-rc");
  sym_check(sv->info->status_val == s2->info->status_val, "P21.status");
  sym_check(sv->info->iter == s2->info->iter, "P21.iter");
  samev(sv->solution->x, s2->solution->x, n, "P21.sol-x"); samev(sv->solution->y, s2->solution->y, m, "P21.sol-y");
  sym_check_eq(sv->info->obj_val, s2->info->obj_val, "P21.obj"); sym_check_eq(sv->info->prim_res, s2->info->prim_res, "P21.prim"); sym_check_eq(sv->info->dual_res, s2->info->dual_res, "P21.dual");
  osqp_cleanup(sv);
  osqp_cleanup(s2);
}
/* ---- P22 ---------------------------------------------------------------------------------------------------- */
static void p22(void) {
  I rc, i, seq, bad = sym_param("bad", 0); F v[MX], w[MX], z_[MX]; OSQPSolution o; F b[4][MX]; I ix[MX]; long long live = sym_heap_live(), k;
  mk_bounds(l, u, m, "l", "u", sym_param("types", 0));
  if (bad == 1) { l[0] = 2.0; u[0] = 1.0; }
  if (bad == 2) s.alpha = 3.0;
  if (bad == 3) s.sigma = 0.0;
  rc = osqp_setup(&sv, &P.M, q, &A.M, l, u, m, n, &s);
  if (bad) {
    sym_cover("bad-setup");
    sym_check(rc != 0, "P22.bad-setup-accepted");
    osqp_cleanup(sv);
    sym_check(sym_heap_live() == live, "P22.leak-after-failed-setup");
    sym_check(sym_model_live() == 0, "P22.library-leak-after-failed-setup");
    return;
  }
  if (sym_param("indef", 0)) {
    sym_check(rc == OSQP_NONCVX_ERROR, "P22.noncvx-code");
    sym_cover("noncvx");
    osqp_cleanup(sv);
    sym_check(sym_heap_live() == live, "P22.leak-after-noncvx");
    sym_check(sym_model_live() == 0, "P22.library-leak-after-noncvx");
    return;
  }
  sym_check(rc == 0, "setup-ok");
  if (rc) return;
  for (k = 0, seq = sym_param("seq", 1); seq; seq /= 10, k++) {
    switch (seq % 10) {
      case 1: rc = osqp_solve(sv); break;
      case 2: for (i = 0; i < n; i++) v[i] = 1.0 + (F)i; for (i = 0; i < m; i++) { w[i] = -1.0; z_[i] = 1.5; } rc = osqp_update_data_vec(sv, v, w, z_); break;
      case 3: for (i = 0; i < A.nnz; i++) { v[i] = 1.0 + (F)i; ix[i] = i; } rc = osqp_update_data_mat(sv, 0, 0, 0, v, ix, A.nnz); break;
      case 4: rc = osqp_update_rho(sv, 2.0); break;
      case 5: for (i = 0; i < n; i++) v[i] = 0.5; for (i = 0; i < m; i++) w[i] = 0.25; rc = osqp_warm_start(sv, v, w); break;
      case 6: o.x = b[0]; o.y = b[1]; o.prim_inf_cert = b[2]; o.dual_inf_cert = b[3]; rc = osqp_get_solution(sv, &o); break;
      case 7: { OSQPSettings t = s; t.alpha = 1.25; t.polish_refine_iter = 1; rc = osqp_update_settings(sv, &t); break; }
      case 8: for (i = 0; i < m; i++) { w[i] = 2.0; z_[i] = 1.0; } rc = osqp_update_data_vec(sv, 0, w, z_) ? 0 : 1; break;
      case 9: for (i = 0; i < P.nnz; i++) { v[i] = 4.0; ix[i] = i; } rc = osqp_update_data_mat(sv, v, ix, P.nnz + 1, 0, 0, 0) ? 0 : 1; osqp_cold_start(sv); break;
    }
    sym_check(rc == 0, "P22.op-rc");
  }
  sym_cover("sequence");
  rc = osqp_cleanup(sv);
  sym_check(rc == 0, "P22.cleanup-rc");
  sym_check(sym_heap_live() == live, "P22.leak");
  sym_check(sym_model_live() == 0, "P22.library-leak");
}
/* ---- P34: the direct solver looks at the inertia of the system it factorises --------------------------------- */
static void p34(void) {
  I rc, i, j, k, pd, npd; F R[2][2], rho, d; long long live = sym_heap_live(), types = sym_param("types", 0), ty = types;
  mk_bounds(l, u, m, "l", "u", types);
  rc = osqp_setup(&sv, &P.M, q, &A.M, l, u, m, n, &s);
  for (i = 0; i < n; i++) for (j = 0; j < n; j++) R[i][j] = P.d[i][j] + (i == j ? s.sigma : 0.0);
  for (k = 0; k < m; k++, ty /= 10) {
    rho = s.rho;
    if (s.rho_is_vec && ty % 10 == 3) rho = 1e3 * rho;
    if (s.rho_is_vec && ty % 10 == 4) rho = 1e-6;
    for (i = 0; i < n; i++) for (j = 0; j < n; j++) R[i][j] = R[i][j] + rho * A.d[k][i] * A.d[k][j];
  }
  if (n == 1) { pd = R[0][0] > 1e-3; npd = R[0][0] < -1e-3; }
  else { d = R[0][0] * R[1][1] - R[0][1] * R[1][0]; pd = (R[0][0] > 1e-3) & (d > 1e-3); npd = (R[0][0] < -1e-3) | (R[1][1] < -1e-3) | (d < -1e-3); }
  if (pd) { sym_cover("positive-definite"); sym_check(rc == 0, "P34.convex-rejected"); }
  else if (npd) {
    sym_cover("indefinite");
    sym_check(rc == OSQP_NONCVX_ERROR, "P34.code");
    sym_check(sv != 0, "P34.solver");
    if (sv) {
      sym_check(sv->info->status_val == OSQP_NON_CVX, "P34.status");
      sym_check(!strcmp(sv->info->status, "problem non convex"), "P34.status-text");
    }
  }
  rc = osqp_cleanup(sv);
  sym_check(rc == 0, "P34.cleanup");
  sym_check(sym_heap_live() == live, "P34.leak");
  sym_check(sym_model_live() == 0, "P34.library-leak");
}
void harness(void) {
  I i, mode = sym_param("mode", 16);
  n = sym_param("n", 1); m = sym_param("m", 1);
  mk_mat(&P, n, n, sym_param("Pm", 15), "P", 1);
  mk_mat(&A, m, n, sym_param("Am", 15), "A", 0);
  for (i = 0; i < n; i++) q[i] = symd("q", i, -1);
  mk_settings(&s);
  if (sym_param("symdelta", 0)) s.delta = sym_pos("delta");
  if (mode == 16) p16();
  if (mode == 17) p17();
  if (mode == 18) p18();
  if (mode == 19) p19();
  if (mode == 21) p21();
  if (mode == 22) p22();
  if (mode == 34) p34();
}
