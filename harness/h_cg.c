/* The indirect (conjugate gradient) linear-system solver (P27) */
#include "internal.h"
#include "lin_alg.h"
#include "reduced_kkt.h"
#include "mkl-cg_interface.h"
static I n, m;
static Mat P, A;
static F sigma, rho[MX];
static void kmul(const F* x, F* y) { /* y = (P + sigma I + A' rho A) x */
  F ax[MX], t[MX]; I i;
  mulv(&P, n, n, x, y);
  mulv(&A, m, n, x, ax);
  for (i = 0; i < m; i++) ax[i] = ax[i] * rho[i];
  mulTv(&A, m, n, ax, t);
  for (i = 0; i < n; i++) y[i] = y[i] + sigma * x[i] + t[i];
}
static void reduced_rhs(const F* b, F* r) {
  F t[MX], w[MX]; I i;
  for (i = 0; i < m; i++) w[i] = rho[i] * b[n + i];
  mulTv(&A, m, n, w, t);
  for (i = 0; i < n; i++) r[i] = b[i] + t[i];
}
static void ghost_rho(const F* l, const F* u, F r, I vec) {
  I i;
  for (i = 0; i < m; i++) rho[i] = !vec ? r : (l[i] < -1e26 && u[i] > 1e26) ? 1e-6 : u[i] - l[i] < 1e-4 ? fmin_(1e3 * r, 1e6) : r;
}
/* ---- tolerance schedule kept by the harness --------------------------------------------------------------------- */
static F eps_prev, frac, frac0;
static I zero_run, interval, prec;
static F ghost_eps(I it, F rhs, F root) { /* root = sqrt(primal residual * dual residual) */
  F e;
  if (it == 1) { frac = frac0; eps_prev = rhs < 1e-7 ? 1.0 : rhs * frac; return eps_prev; }
  if (zero_run >= interval) { frac = frac / 2; zero_run = 0; }
  e = fmin_(frac * root, eps_prev);
  eps_prev = fmax_(e, 1e-7);
  return eps_prev;
}
static void one_solve(OSQPSolver* sv, I it, F root, I cap, const char* base, I free_from) {
  LinSysSolver* ls = sv->work->linsys_solver; OSQPVectorf* v = OSQPVectorf_malloc(n + m); I i, rc, lim = sym_param("capped", 0), pc = prec;
  F b[2 * MX], g[MX], kx[MX], r[MX], x[2 * MX], x0[MX], ax[MX], e, out[2 * MX], z[MX], kz[MX], rz, zkz, D[MX];
  for (i = 0; i < n + m; i++) { b[i] = symd(base, i, -1); sym_assume(fabs_(b[i]) <= 1e4); }
  (void)free_from;
  putv(v, b, n + m);
  getv(((mklcg_solver*)ls)->x, 0, n, x0);
  rc = ls->solve(ls, v, it);
  sym_check(rc >= 0, "P27.solve-succeeds");
  getv(v, 0, n + m, out);
  for (i = 0; i < n + m; i++) x[i] = out[i];
  reduced_rhs(b, g);
  e = ghost_eps(it, ninf(g, n), root);
  kmul(x, kx);
  for (i = 0; i < n; i++) r[i] = g[i] - kx[i];
  mulv(&A, m, n, x, ax);
  for (i = 0; i < m; i++) chk_eq(out[n + i], ax[i], "P27.z", i, -1);
  if (!lim) {
    sym_cover("solved");
    for (i = 0; i < n; i++) { char s[24]; nm(s, "P27.residual", i, -1); sym_check(fabs_(r[i]) <= e, s); }
  }
  kmul(x0, kx);
  for (i = 0; i < n; i++) kx[i] = g[i] - kx[i];
  if (lim) { /* a single step of the preconditioned method from the previous solution, unless the target is met */
    if (ninf(kx, n) < e) { sym_cover("target"); for (i = 0; i < n; i++) sym_check(fabs_(r[i]) <= e, "P27.cap-target"); }
    else {
      sym_cover("cap");
      for (i = 0; i < n; i++) { I k; D[i] = P.d[i][i] + sigma; for (k = 0; k < m; k++) D[i] = D[i] + rho[k] * A.d[k][i] * A.d[k][i]; }
      for (i = 0; i < n; i++) z[i] = pc ? kx[i] / D[i] : kx[i];
      kmul(z, kz);
      rz = dot(kx, z, n); zkz = dot(z, kz, n);
      for (i = 0; i < n; i++) chk_eq((x[i] - x0[i]) * zkz, rz * z[i], "P27.cap-step", i, -1);
    }
  }
  if (ninf(kx, n) < e) { zero_run++; sym_cover("no-iterations"); } else { zero_run = 0; sym_cover("iterations"); }
  /* the previous solution starts the next solve */
  getv(((mklcg_solver*)ls)->x, 0, n, x0);
  (void)cap;
  OSQPVectorf_free(v);
}
static void solver(void) {
  OSQPSettings st, s2; OSQPSolver* sv = 0; F q[MX], l[MX], u[MX], nv[MX * MX]; I i, k, rc, op, cap; long long ops = sym_param("ops", 0); F rt; I it = sym_param("it", 1);
  mk_mat(&P, n, n, sym_param("Pm", 1), "P", 1); mk_mat(&A, m, n, sym_param("Am", 1), "A", 0);
  for (i = 0; i < n; i++) q[i] = 1.0;
  mk_bounds(l, u, m, "l", "u", sym_param("types", 0));
  mk_settings(&st);
  st.linsys_solver = OSQP_INDIRECT_SOLVER;
  st.cg_tol_reduction = interval = sym_param("interval", 10);
  frac0 = frac = st.cg_tol_fraction; prec = sym_param("cg_precond", 1) != 0; cap = st.cg_max_iter; sigma = st.sigma;
  rc = osqp_setup(&sv, &P.M, q, &A.M, l, u, m, n, &st);
  sym_check(rc == 0, "P27.setup");
  if (rc) return;
  ghost_rho(l, u, st.rho, st.rho_is_vec);
  rt = sym_param("symroot", 0) ? sym_pos("root") : sym_paramd("root", 0.0625);
  sv->work->scaled_prim_res = rt * 4; sv->work->scaled_dual_res = rt / 4;
  for (k = 0; ops; ops /= 10) { op = ops % 10;
    if (op == 1) { F r = sym_paramd("newrho", 2.0); sym_check(osqp_update_rho(sv, r) == 0, "P27.update"); ghost_rho(l, u, r, st.rho_is_vec); st.rho = r; }
    else if (op == 2 || op == 8) {
      for (i = 0; i < P.nnz; i++) nv[i] = P.x[i] * (op == 2 ? 2.0 : 3.0) + 1.0;
      for (i = 0; i < A.nnz; i++) nv[P.nnz + i] = A.x[i] * 0.5 - 1.0;
      { I ao = op == 8 && sym_param("aonly", 0), z = sym_param("zerocount", 0); /* a count of zero with no positions: all entries */
        if (ao) { sym_check(osqp_update_data_mat(sv, 0, 0, 0, nv + P.nnz, 0, z ? 0 : A.nnz) == 0, "P27.update"); }
        else sym_check(osqp_update_data_mat(sv, nv, 0, z ? 0 : P.nnz, op == 8 ? 0 : nv + P.nnz, 0, op == 8 || z ? 0 : A.nnz) == 0, "P27.update");
        if (ao) { I j, a; for (j = 0; j < n; j++) for (a = A.p[j]; a < A.p[j + 1]; a++) A.d[A.i[a]][j] = nv[P.nnz + a]; continue; }
      }
      { I j, a; for (j = 0; j < n; j++) for (a = P.p[j]; a < P.p[j + 1]; a++) P.d[P.i[a]][j] = P.d[j][P.i[a]] = nv[a];
        if (op == 2) for (j = 0; j < n; j++) for (a = A.p[j]; a < A.p[j + 1]; a++) A.d[A.i[a]][j] = nv[P.nnz + a]; }
    }
    else if (op == 3) { for (i = 0; i < m; i++) { u[i] = l[i] = 0.5 * (double)(i + 1); } sym_check(osqp_update_data_vec(sv, 0, l, u) == 0, "P27.update"); ghost_rho(l, u, st.rho, st.rho_is_vec); }
    else if (op == 4) { s2 = st; s2.cg_precond = st.cg_precond == OSQP_NO_PRECONDITIONER ? OSQP_DIAGONAL_PRECONDITIONER : OSQP_NO_PRECONDITIONER;
      s2.cg_max_iter = sym_param("newcap", 20); s2.cg_tol_fraction = sym_paramd("newfrac", 0.25); s2.cg_tol_reduction = interval = sym_param("newinterval", 10); frac0 = s2.cg_tol_fraction; st = s2; prec = !prec;
      sym_check(osqp_update_settings(sv, &s2) == 0, "P27.update"); }
    else if (op == 9) it = 1;
    else { char b[4] = {'v', (char)('0' + k), 0, 0}; one_solve(sv, it++, rt, cap, b, 0); k++;
      if (op == 6) { rt = rt / 2; sv->work->scaled_prim_res = rt * 4; sv->work->scaled_dual_res = rt / 4; }
      if (op == 7) { rt = rt * 4; sv->work->scaled_prim_res = rt * 4; sv->work->scaled_dual_res = rt / 4; } }
  }
  one_solve(sv, it, rt, cap, "b", 0);
  osqp_cleanup(sv);
}
/* ---- the reduced operator, its diagonal and right-hand side, for every pattern ----------------------------------- */
static void direct(void) {
  OSQPMatrix *Q, *B; OSQPVectorf *rv, *x, *v, *w, *b2; F xs[MX], b[2 * MX], e[MX], o[MX], di[MX]; I i, k;
  mk_mat(&P, n, n, split_mask("pm", n, n, 1), "P", 1); mk_mat(&A, m, n, split_mask("am", m, n, 0), "A", 0);
  sigma = sym_pos("sigma"); for (i = 0; i < m; i++) { char c[8]; nm(c, "rho", i, -1); rho[i] = sym_pos(c); }
  Q = OSQPMatrix_new_from_csc(&P.M, 1); B = OSQPMatrix_new_from_csc(&A.M, 0);
  rv = OSQPVectorf_new(rho, m); x = OSQPVectorf_malloc(n); v = OSQPVectorf_malloc(n); w = OSQPVectorf_malloc(m); b2 = OSQPVectorf_malloc(m);
  for (i = 0; i < n + m; i++) b[i] = symd("b", i, -1);
  for (i = 0; i < n; i++) xs[i] = symd("x", i, -1);
  putv(x, xs, n);
  reduced_kkt_mv_times(Q, B, rv, sigma, x, v, w);
  kmul(xs, e); getv(v, 0, n, o);
  for (i = 0; i < n; i++) chk_eq(o[i], e[i], "P27.operator", i, -1);
  getv(x, 0, n, o); for (i = 0; i < n; i++) chk_eq(o[i], xs[i], "P27.operator-input", i, -1);
  putv(x, b, n); putv(b2, b + n, m);
  reduced_kkt_compute_rhs(B, rv, x, b2, w);
  reduced_rhs(b, e); getv(x, 0, n, o);
  for (i = 0; i < n; i++) chk_eq(o[i], e[i], "P27.rhs", i, -1);
  getv(b2, 0, m, o); for (i = 0; i < m; i++) chk_eq(o[i], b[n + i], "P27.rhs-input", i, -1);
  for (i = 0; i < n; i++) { e[i] = P.d[i][i] + sigma; for (k = 0; k < m; k++) e[i] = e[i] + rho[k] * A.d[k][i] * A.d[k][i]; sym_assume(P.d[i][i] >= 0.0); }
  reduced_kkt_diagonal(Q, B, rv, sigma, x, v);
  getv(x, 0, n, o); getv(v, 0, n, di);
  for (i = 0; i < n; i++) { chk_eq(o[i], e[i], "P27.diagonal", i, -1); if (sym_param("inv", 1)) chk_eq(di[i] * o[i], 1.0, "P27.diagonal-inverse", i, -1); }
  getv(rv, 0, m, o); for (i = 0; i < m; i++) chk_eq(o[i], rho[i], "P27.rho-kept", i, -1);
  sym_cover("direct");
  OSQPMatrix_free(Q); OSQPMatrix_free(B); OSQPVectorf_free(rv); OSQPVectorf_free(x); OSQPVectorf_free(v); OSQPVectorf_free(w); OSQPVectorf_free(b2);
}
OSQPFloat cg_compute_tolerance(OSQPInt, OSQPFloat, OSQPFloat, OSQPFloat, OSQPFloat, OSQPFloat*);
static void tolerance(void) {
  F rhs = sym_double("rhs"), pr = sym_double("prim"), du = sym_double("dual"), f = sym_paramd("cg_tol_fraction", 0.15), ep, e, g; I it = sym_int("it", 1, 1000000);
  sym_assume(rhs >= 0.0); sym_assume(pr >= 0.0); sym_assume(du >= 0.0);
  ep = sym_double("eps"); sym_assume(ep >= 1e-7 * 0.001); sym_assume(ep <= 1e10);
  g = ep;
  e = cg_compute_tolerance(it, rhs, pr, du, f, &g);
  sym_check_eq(g, e, "P27.tolerance-remembered");
  if (it == 1) { sym_cover("first"); sym_check_eq(e, rhs < 1e-7 ? 1.0 : rhs * f, "P27.tolerance-first"); return; }
  sym_cover("later");
  sym_check(e >= 1e-7, "P27.tolerance-floor");
  if (e > 1e-7) {
    sym_check(e <= ep, "P27.tolerance-monotone");
    sym_check(e * e <= f * f * pr * du, "P27.tolerance-residuals");
    if (e < ep) { sym_cover("residual-driven"); sym_check_eq(e * e, f * f * pr * du, "P27.tolerance-fraction"); }
  }
  else sym_check(ep <= 1e-7 || f * f * pr * du <= 1e-14, "P27.tolerance-at-floor");
}
static void polish(void) { /* the solver used by polishing: (x, nu) of the regularised KKT system */
  OSQPMatrix *Q, *B; OSQPSettings st; LinSysSolver* ls = 0; F pr = 0, du = 0, b[2 * MX], o[2 * MX], g[MX], kx[MX], ax[MX], e; OSQPVectorf* v; I i, rc;
  mk_mat(&P, n, n, sym_param("Pm", 1), "P", 1); mk_mat(&A, m, n, sym_param("Am", 1), "A", 0);
  mk_settings(&st); st.linsys_solver = OSQP_INDIRECT_SOLVER; st.sigma = st.delta; sigma = st.sigma;
  for (i = 0; i < m; i++) rho[i] = 1.0 / sigma;
  Q = OSQPMatrix_new_from_csc(&P.M, 1); B = OSQPMatrix_new_from_csc(&A.M, 0);
  rc = osqp_algebra_init_linsys_solver(&ls, Q, B, 0, &st, &pr, &du, 1);
  sym_check(rc == 0 && ls, "P27.polish-setup");
  if (rc) return;
  v = OSQPVectorf_malloc(n + m);
  for (i = 0; i < n + m; i++) { b[i] = symd("b", i, -1); sym_assume(fabs_(b[i]) <= 1e4); }
  putv(v, b, n + m);
  rc = ls->solve(ls, v, 1);
  sym_check(rc >= 0, "P27.polish-solve");
  getv(v, 0, n + m, o);
  reduced_rhs(b, g); kmul(o, kx); mulv(&A, m, n, o, ax);
  e = fmax_(ninf(g, n) * 1e-5, 1e-7);
  for (i = 0; i < n; i++) { char s[24]; nm(s, "P27.polish-residual", i, -1); sym_check(fabs_(g[i] - kx[i]) <= e, s); }
  for (i = 0; i < m; i++) chk_eq(o[n + i] * sigma, ax[i] - b[n + i], "P27.polish-nu", i, -1);
  sym_cover("polish");
  OSQPVectorf_free(v); ls->free(ls); OSQPMatrix_free(Q); OSQPMatrix_free(B);
}
void harness(void) {
  I what = sym_param("what", 0);
  n = sym_param("n", 1); m = sym_param("m", 1);
  if (what == 0) solver();
  else if (what == 1) direct();
  else if (what == 2) tolerance();
  else polish();
}
