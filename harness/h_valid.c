/* validation of data and settings at setup, and of settings updates, against the documented rules */
#include "internal.h"
#define SETTINGS_I(X) X(device) X(allocate_solution) X(verbose) X(profiler_level) X(warm_starting) X(scaling) X(polishing) X(rho_is_vec) \
  X(cg_max_iter) X(adaptive_rho_interval) X(max_iter) X(scaled_termination) X(check_termination) X(check_dualgap) X(polish_refine_iter)
#define SETTINGS_F(X) X(rho) X(sigma) X(alpha) X(cg_tol_fraction) X(adaptive_rho_fraction) X(adaptive_rho_tolerance) X(eps_abs) X(eps_rel) \
  X(eps_prim_inf) X(eps_dual_inf) X(time_limit) X(delta)

static int flag(I v) { return v == 0 || v == 1; }
/* documented ranges of the settings that can be changed after setup */
static int valid_updatable(const OSQPSettings* t) {
  int ok = flag(t->verbose) & flag(t->warm_starting) & flag(t->polishing) & flag(t->scaled_termination) & flag(t->check_dualgap);
  ok &= t->profiler_level >= 0 && t->profiler_level <= 2;
  ok &= t->alpha > 0.0 && t->alpha < 2.0;
  ok &= t->cg_max_iter > 0;
  ok &= t->cg_tol_reduction > 0;
  ok &= t->cg_tol_fraction > 0.0 && t->cg_tol_fraction < 1.0;
  ok &= t->max_iter > 0;
  ok &= t->eps_abs >= 0.0;
  ok &= t->eps_rel >= 0.0;
  ok &= t->eps_abs > 0.0 || t->eps_rel > 0.0;
  ok &= t->eps_prim_inf > 0.0;
  ok &= t->eps_dual_inf > 0.0;
  ok &= t->check_termination >= 0;
  ok &= t->time_limit > 0.0;
  ok &= t->delta > 0.0;
  ok &= t->polish_refine_iter >= 0;
  return ok;
}
static int valid_setup(const OSQPSettings* t) {
  int ok = valid_updatable(t);
  ok &= t->linsys_solver == OSQP_DIRECT_SOLVER || t->linsys_solver == OSQP_INDIRECT_SOLVER;
  ok &= flag(t->allocate_solution) & flag(t->rho_is_vec);
  ok &= t->scaling >= 0;
  ok &= t->rho > 0.0;
  ok &= t->sigma > 0.0;
  ok &= t->adaptive_rho == 0 || t->adaptive_rho == 1 || t->adaptive_rho == 2 || t->adaptive_rho == 3;
  ok &= t->adaptive_rho_interval >= 0;
  ok &= t->adaptive_rho_fraction > 0.0;
  ok &= t->adaptive_rho_tolerance >= 1.0;
  return ok;
}
static F fl(const char* n) { return sym_param("ext", 1) ? sym_ext(n, 7) : sym_double(n); }
/* make the settings of group g symbolic */
static void symbolic(OSQPSettings* t, I g) {
  if (g == 0) {
    t->linsys_solver = (enum osqp_linsys_solver_type)sym_int("linsys_s", -3, 4);
    t->allocate_solution = sym_int("allocate", -2, 3); t->verbose = sym_int("verbose", -9, 9); t->profiler_level = sym_int("profiler", -9, 9);
  }
  if (g == 1) { t->warm_starting = sym_int("warm", -9, 9); t->polishing = sym_int("polishing", -9, 9); t->scaled_termination = sym_int("scaledterm", -9, 9); t->check_dualgap = sym_int("dualgap", -9, 9); }
  if (g == 2) { t->rho = fl("rho_s"); t->sigma = sym_double("sigma_s"); }
  if (g == 3) { t->alpha = fl("alpha_s"); t->cg_tol_fraction = fl("cgf"); t->cg_tol_reduction = sym_int("cgr", -99999, 99999); t->cg_max_iter = sym_int("cgi", -99999, 99999); }
  if (g == 4) { t->eps_abs = fl("eabs"); t->eps_rel = fl("erel"); t->eps_prim_inf = fl("epinf"); t->eps_dual_inf = fl("edinf"); }
  if (g == 5) { t->max_iter = sym_int("maxit", -99999, 99999); t->check_termination = sym_int("chkterm", -99999, 99999); t->polish_refine_iter = sym_int("refine", -99999, 99999); t->time_limit = fl("tlim"); t->delta = fl("delta_s"); }
  if (g == 6) { t->adaptive_rho = sym_int("ar", -2, 6); t->adaptive_rho_interval = sym_int("ari", -99999, 99999); t->adaptive_rho_fraction = fl("arf"); t->adaptive_rho_tolerance = fl("art"); }
  if (g == 7) { t->rho_is_vec = sym_int("rho_is_vec_s", -9, 9); }
  if (g == 8) { t->scaling = sym_int("scaling_s", -3, 2); }
}
static void cmp_updatable(const OSQPSettings* a, const OSQPSettings* b, int i, const char* l) {
#define CI(f) sym_check(a->f == b->f, l);
#define CF(f) sym_check_eq(a->f, b->f, l);
  if (i) { CI(verbose) CI(profiler_level) CI(warm_starting) CI(polishing) CI(cg_max_iter) CI(cg_tol_reduction) CI(max_iter) CI(scaled_termination) CI(check_termination)
    CI(check_dualgap) CI(polish_refine_iter) CI(cg_precond) CF(alpha) CF(cg_tol_fraction) CF(eps_abs) CF(eps_rel) CF(eps_prim_inf) CF(eps_dual_inf) CF(time_limit) CF(delta) }
}
static void cmp_fixed(const OSQPSettings* a, const OSQPSettings* b, const char* l) {
  CI(device) CI(linsys_solver) CI(allocate_solution) CI(scaling) CI(rho_is_vec) CI(adaptive_rho) CF(sigma) CF(adaptive_rho_fraction) CF(adaptive_rho_tolerance)
}
static Mat P, A;
static F q[MX], l[MX], u[MX];
static OSQPSettings s, t;

static void settings_setup(void) { /* P01: settings at setup */
  OSQPSolver* sv = 0; I rc, g = sym_param("group", 0); int ok; F xr;
  if (sym_param("gmask", 0)) { I b; for (b = 0; b < 9; b++) if (sym_param("gmask", 0) >> b & 1) symbolic(&s, b); }
  else symbolic(&s, g);
  if (g == 7 || g == 8) symbolic(&s, 6);
  t = s;
  rc = osqp_setup(&sv, &P.M, q, &A.M, l, u, 1, 1, &s);
  ok = valid_setup(&t);
  cmp_updatable(&s, &t, 1, "P01.settings-modified"); cmp_fixed(&s, &t, "P01.settings-modified");
  sym_check(rc == (ok ? 0 : OSQP_SETTINGS_VALIDATION_ERROR), "P01.settings-code");
  if (rc) { sym_cover("rejected"); sym_check(sv == 0, "P01.rejected-no-solver"); return; }
  sym_cover("accepted");
  if (!ok) return;
  cmp_updatable(sv->settings, &t, 1, "P01.settings-take-effect"); cmp_fixed(sv->settings, &t, "P01.settings-take-effect");
  xr = t.rho < 1e-6 ? 1e-6 : t.rho > 1e6 ? 1e6 : t.rho;
  sym_check_eq(sv->settings->rho, xr, "P01.rho-clipped");
  sym_check((sv->solution != 0) == (t.allocate_solution == 1), "P01.allocate-solution");
  if (t.adaptive_rho_interval > 0) sym_check(sv->settings->adaptive_rho_interval == t.adaptive_rho_interval, "P01.interval-kept");
  sym_check(sv->info->status_val == OSQP_UNSOLVED, "P01.unsolved");
}
static void settings_update(void) { /* P02 */
  OSQPSolver* sv = 0; OSQPSettings old, w; I rc, g = sym_param("group", 0); int ok;
  rc = osqp_setup(&sv, &P.M, q, &A.M, l, u, 1, 1, &s);
  sym_check(rc == 0, "setup-ok");
  if (sym_param("solved", 0)) osqp_solve(sv);
  w = s;
  /* settings fixed at setup differ from the current ones: they have to be ignored */
  w.rho = 7.0; w.sigma = 3.0; w.scaling = 5; w.rho_is_vec = 1 - s.rho_is_vec; w.adaptive_rho = s.adaptive_rho ? 0 : 1; w.adaptive_rho_interval = 17;
  w.adaptive_rho_fraction = 0.7; w.adaptive_rho_tolerance = 9.0; w.allocate_solution = 0; w.device = 3; w.linsys_solver = sym_param("otherlinsys", 1) ? OSQP_INDIRECT_SOLVER : s.linsys_solver;
  if (sym_param("gmask", 0)) { I b; for (b = 0; b < 6; b++) if (sym_param("gmask", 0) >> b & 1) symbolic(&w, b); }
  else symbolic(&w, g);
  if (sym_param("group2", -1) >= 0) symbolic(&w, sym_param("group2", -1));
  t = w; old = *sv->settings;
  rc = osqp_update_settings(sv, &w);
  ok = valid_updatable(&t);
  cmp_updatable(&w, &t, 1, "P02.argument-modified");
  sym_check(rc == (ok ? 0 : OSQP_SETTINGS_VALIDATION_ERROR), "P02.code");
  cmp_fixed(sv->settings, &old, "P02.fixed-settings-kept");
  sym_check_eq(sv->settings->rho, old.rho, "P02.rho-kept");
  sym_check(sv->settings->adaptive_rho_interval == old.adaptive_rho_interval, "P02.interval-kept");
  if (rc) { sym_cover("rejected"); cmp_updatable(sv->settings, &old, 1, "P02.rejected-unchanged"); }
  else { sym_cover("accepted"); cmp_updatable(sv->settings, &t, 1, "P02.accepted-takes-effect"); }
}
static void null_calls(void) { /* calls without a solver return the documented code */
  OSQPSolver* sv = 0; OSQPSolution so; F r; OSQPSettings st = s; I which = sym_int("which", 0, 8);
  OSQPSolver empty; OSQPSolver* h[2]; I hi = sym_int("handle", 0, 1);
  memset(&empty, 0, sizeof empty); memset(&so, 0, sizeof so);
  h[0] = 0; h[1] = &empty;
  which = sym_split(which); hi = sym_split(hi); r = symd("r", -1, -1);
  sv = h[hi];
  if (which == 0) sym_check(osqp_solve(sv) == OSQP_WORKSPACE_NOT_INIT_ERROR, "P01.null-solve");
  if (which == 1) sym_check(osqp_update_data_vec(sv, &r, &r, &r) == OSQP_WORKSPACE_NOT_INIT_ERROR, "P01.null-update-vec");
  if (which == 2) sym_check(osqp_update_data_mat(sv, &r, 0, 1, &r, 0, 1) == OSQP_WORKSPACE_NOT_INIT_ERROR, "P01.null-update-mat");
  if (which == 3) sym_check(osqp_update_rho(sv, r) == OSQP_WORKSPACE_NOT_INIT_ERROR, "P01.null-update-rho");
  if (which == 4) sym_check(osqp_update_settings(sv, &st) == OSQP_WORKSPACE_NOT_INIT_ERROR, "P01.null-update-settings");
  if (which == 5) sym_check(osqp_warm_start(sv, &r, &r) == OSQP_WORKSPACE_NOT_INIT_ERROR, "P01.null-warm-start");
  if (which == 6) sym_check(osqp_get_solution(sv, &so) == OSQP_WORKSPACE_NOT_INIT_ERROR, "P01.null-get-solution");
  if (which == 7) { I a = 5, b = 6; osqp_get_dimensions(sv, &a, &b); sym_check(a == -1 && b == -1, "P01.null-dimensions"); }
  if (which == 8 && hi == 0) sym_check(osqp_cleanup(sv) == 0, "P01.null-cleanup");
  sym_cover("called");
}
static void data_setup(void) { /* P01: problem data */
  OSQPSolver* sv = 0; I rc, i, j, n, m, nn, mm, sel = sym_param("sel", 0); int ok = 1;
  OSQPCscMatrix Pm, Am; F ql[MX], ll[MX], uu[MX];
  OSQPCscMatrix *pP = &P.M, *pA = &A.M; F *pq = q, *pl = l, *pu = u; OSQPSettings* ps = &s;
  nn = sym_param("n", 2); mm = sym_param("m", 2); n = nn; m = mm;
  for (i = 0; i < MX; i++) { ql[i] = q[i]; ll[i] = l[i]; uu[i] = u[i]; }
  if (sel == 0) { /* bounds: any doubles */
    for (i = 0; i < m; i++) { char a[8]; nm(a, "l", i, -1); l[i] = sym_ext(a, 7); nm(a, "u", i, -1); u[i] = sym_ext(a, 7); ok &= l[i] <= u[i]; ll[i] = l[i]; uu[i] = u[i]; }
  }
  if (sel == 1) { /* shapes */
    n = sym_int("n_s", -2, 3); m = sym_int("m_s", -2, 3);
    P.M.m = sym_int("Prow", 0, 3); P.M.n = sym_int("Pcol", 0, 3); A.M.m = sym_int("Arow", 0, 3); A.M.n = sym_int("Acol", 0, 3);
    ok = n > 0 && m >= 0 && P.M.m == n && P.M.n == n && A.M.m == m && A.M.n == n;
    sym_assume(!ok || (n == nn && m == mm)); /* a consistent shape is the one the arrays have */
  }
  if (sel == 2) { /* row indices of P */
    int uns = 0;
    for (j = 0; j < n; j++) for (i = P.p[j]; i < P.p[j + 1]; i++) {
      char a[8]; nm(a, "pi", i, -1); P.i[i] = sym_int(a, 0, nn - 1);
      ok &= P.i[i] <= j;
      if (i > P.p[j]) { if (sym_param("unsorted", 0)) { sym_assume(P.i[i] != P.i[i - 1]); uns |= P.i[i] < P.i[i - 1]; } else sym_assume(P.i[i] > P.i[i - 1]); }
    }
    sym_assume(!ok || !uns); /* the order of a valid matrix is not in question here */
  }
  if (sel == 3) { /* missing arguments */
    I k = sym_int("missing", 0, 6);
    if (k == 1) pP = 0;
    if (k == 2) pq = 0;
    if (k == 3) pA = 0;
    if (k == 4) pl = 0;
    if (k == 5) pu = 0;
    if (k == 6) ps = 0;
    ok = k == 0;
    if (k == 6) { rc = osqp_setup(&sv, pP, pq, pA, pl, pu, m, n, ps); sym_check(rc == OSQP_SETTINGS_VALIDATION_ERROR && sv == 0, "P01.missing-settings"); sym_cover("no-settings"); return; }
  }
  Pm = P.M; Am = A.M;
  rc = osqp_setup(&sv, pP, pq, pA, pl, pu, m, n, ps);
  sym_check(rc == (ok ? 0 : OSQP_DATA_VALIDATION_ERROR), "P01.data-code");
  for (i = 0; i < MX; i++) { sym_check_eq(q[i], ql[i], "P01.q-modified"); sym_check_eq(l[i], ll[i], "P01.l-modified"); sym_check_eq(u[i], uu[i], "P01.u-modified"); }
  sym_check(Pm.m == P.M.m && Pm.n == P.M.n && Am.m == A.M.m && Am.n == A.M.n, "P01.matrix-modified");
  if (rc) { sym_cover("rejected"); sym_check(sv == 0, "P01.rejected-no-solver"); return; }
  sym_cover("accepted");
  { I a, b; osqp_get_dimensions(sv, &a, &b); sym_check(a == mm && b == nn, "P01.dimensions"); }
}
void harness(void) {
  I i, n = sym_param("n", 1), m = sym_param("m", 1), what = sym_param("what", 0);
  mk_mat(&P, n, n, sym_param("Pm", 1), "P", 1);
  mk_mat(&A, m, n, sym_param("Am", 1), "A", 0);
  for (i = 0; i < MX; i++) { q[i] = 0.5; l[i] = -1.0; u[i] = 1.0 + (F)i; }
  mk_settings(&s);
  if (what == 0) settings_setup();
  if (what == 1) settings_update();
  if (what == 2) data_setup();
  if (what == 3) null_calls();
}
