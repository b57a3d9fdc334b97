/* Differential check of histories: solver 1 runs a sequence of API calls; solver 2 is either set up afresh from the
   resulting data (fresh=1) or runs another sequence (ops2).  After the same start point both solve, and everything
   the user can observe must agree. */
#include "common.h"
typedef struct {
  Mat P, A; F q[MX], l[MX], u[MX]; OSQPSettings s; OSQPSolver* sv; OSQPSolution so; F sx[MX], sy[MX], sp[MX], sd[MX]; I k;
} Ctx;
static Ctx c1, c2, c3;
static F xst[MX], yst[MX];
static I n, m;

static void idxs(I k, I nnz, I* idx) { /* permutation: reversed */
  I i; (void)k;
  for (i = 0; i < nnz; i++) idx[i] = nnz - 1 - i;
}
static void setval(Mat* M, I k, F v, I triu) { I j; M->x[k] = v; for (j = 0; j < n; j++) if (k >= M->p[j] && k < M->p[j + 1]) { M->d[M->i[k]][j] = v; if (triu) M->d[j][M->i[k]] = v; } }
/* convex data: P diagonally dominant */
static void dominant(const Mat* M) {
  I i, j;
  for (i = 0; i < n; i++) { F t = 0.0; for (j = 0; j < n; j++) if (j != i) t += fabs_(M->d[i][j]); sym_assume(M->d[i][i] >= t); }
}
static void step(Ctx* c, I op) {
  F v1[MX * MX], v2[MX * MX]; I i1[MX * MX], i2[MX * MX]; I i, rc; char nb[8];
  OSQPSettings t;
  nb[0] = 'n'; nb[1] = (char)('0' + c->k); nb[2] = 0;
  if (op == 1) { rc = osqp_solve(c->sv); sym_check(rc == 0, "solve-rc"); if (sym_param("assumeinf", 0) == c->sv->info->status_val) sym_cover("infeasible"); else if (sym_param("assumeinf", 0)) sym_assume(0); return; }
  if (op >= 2 && op <= 6) {
    F q1[MX], l1[MX], u1[MX];
    char a[8], b[8], d[8];
    a[0] = 'q'; b[0] = 'l'; d[0] = 'u'; a[1] = b[1] = d[1] = (char)('0' + c->k); a[2] = b[2] = d[2] = 0;
    for (i = 0; i < n; i++) q1[i] = symd(a, i, -1);
    if (op == 3 || op == 6) mk_bounds(l1, u1, m, b, d, sym_param("types1", 0));
    if (op == 4) for (i = 0; i < m; i++) { l1[i] = symd(b, i, -1); sym_assume(l1[i] < 1e20); sym_assume(l1[i] > -1e20); if (sym_param("types1", 0) == 3) l1[i] = c->u[i]; else sym_assume(c->u[i] - l1[i] > 1e-3); }
    if (op == 5) for (i = 0; i < m; i++) { u1[i] = symd(d, i, -1); sym_assume(u1[i] < 1e20); sym_assume(u1[i] > -1e20); if (sym_param("types1", 0) == 3) u1[i] = c->l[i]; else sym_assume(u1[i] - c->l[i] > 1e-3); }
    rc = osqp_update_data_vec(c->sv, (op == 2 || op == 6) ? q1 : 0, (op == 3 || op == 4 || op == 6) ? l1 : 0, (op == 3 || op == 5 || op == 6) ? u1 : 0);
    sym_check(rc == 0, "update-vec-rc");
    if (op == 2 || op == 6) for (i = 0; i < n; i++) c->q[i] = q1[i];
    if (op == 3 || op == 4 || op == 6) for (i = 0; i < m; i++) c->l[i] = l1[i];
    if (op == 3 || op == 5 || op == 6) for (i = 0; i < m; i++) c->u[i] = u1[i];
    sym_check(c->sv->info->status_val == OSQP_UNSOLVED, "status-until-solved");
    /* the caller may reuse its arrays */
    for (i = 0; i < n; i++) q1[i] = 77.0;
    for (i = 0; i < m; i++) l1[i] = u1[i] = 78.0;
    return;
  }
  if (op >= 10 && op <= 19) {
    I np = c->P.nnz, na = c->A.nnz, dp = 0, da = 0, *ip = 0, *ia = 0, cp = 0, ca = 0;
    char a[8], b[8];
    a[0] = 'P'; b[0] = 'A'; a[1] = b[1] = (char)('0' + c->k); a[2] = b[2] = 0;
    if (op == 10 || op == 18) { dp = 1; cp = np; }
    if (op == 11) { dp = 1; cp = 0; }
    if (op == 12 || op == 19) { dp = 1; cp = 1; i1[0] = sym_param("pidx", 0); ip = i1; }
    if (op == 13) { dp = 1; cp = np; idxs(0, np, i1); ip = i1; }
    if (op == 14 || op == 18) { da = 1; ca = na; }
    if (op == 15) { da = 1; ca = 0; }
    if (op == 16 || op == 19) { da = 1; ca = 1; i2[0] = sym_param("aidx", 0); ia = i2; }
    if (op == 17) { da = 1; ca = na; idxs(0, na, i2); ia = i2; }
    if (op == 19) { /* lists of different lengths in one call */
      if (sym_param("pcnt", 1) > 1) { cp = sym_param("pcnt", 1); idxs(0, np, i1); }
      if (sym_param("acnt", 1) > 1) { ca = sym_param("acnt", 1); idxs(0, na, i2); }
    }
    for (i = 0; i < np; i++) v1[i] = symd(a, i, -1);
    for (i = 0; i < na; i++) v2[i] = symd(b, i, -1);
    rc = osqp_update_data_mat(c->sv, dp ? v1 : 0, ip, cp, da ? v2 : 0, ia, ca);
    sym_check(rc == 0, "update-mat-rc");
    if (dp) for (i = 0; i < (cp ? cp : np); i++) setval(&c->P, ip ? ip[i] : i, v1[i], 1);
    if (da) for (i = 0; i < (ca ? ca : na); i++) setval(&c->A, ia ? ia[i] : i, v2[i], 0);
    if (dp) dominant(&c->P);
    sym_check(c->sv->info->status_val == OSQP_UNSOLVED, "status-until-solved");
    for (i = 0; i < np; i++) v1[i] = 79.0;
    for (i = 0; i < na; i++) v2[i] = 80.0;
    return;
  }
  if (op == 20 || op == 21) {
    F r = op == 20 ? sym_paramd("rho1", 0.125) : sym_pos("rho1");
    rc = osqp_update_rho(c->sv, r);
    sym_check(rc == 0, "update-rho-rc");
    c->s.rho = r;
    return;
  }
  if (op == 25 || op == 42) {
    t = c->s;
    t.alpha = sym_paramd("alpha1", 1.25); t.eps_abs = 0.5; t.eps_rel = 0.25; t.eps_prim_inf = 0.125; t.eps_dual_inf = 0.0625;
    t.check_dualgap = 0; t.max_iter = sym_param("max_iter1", c->s.max_iter); t.delta = 0.03125; t.polish_refine_iter = 1;
    t.scaled_termination = 1 - c->s.scaled_termination; t.cg_max_iter = 3; t.check_termination = 1;
    if (op == 42) { t.rho = 0.0; t.polish_refine_iter = -1; t.alpha = 2.5; }
    rc = osqp_update_settings(c->sv, &t);
    if (op == 42) { sym_check(rc != 0, "P13.bad-settings-rejected"); return; }
    sym_check(rc == 0, "update-settings-rc");
    c->s = t;
    return;
  }
  if (op == 27) { /* polishing switched over */
    t = c->s; t.polishing = 1 - t.polishing;
    rc = osqp_update_settings(c->sv, &t);
    sym_check(rc == 0, "update-settings-rc");
    c->s = t;
    return;
  }
  if (op == 26) { /* printing switched over */
    t = c->s; t.verbose = 1 - t.verbose;
    rc = osqp_update_settings(c->sv, &t);
    sym_check(rc == 0, "update-settings-rc");
    c->s = t;
    return;
  }
  if (op >= 30 && op <= 33) {
    if (op == 31) { osqp_cold_start(c->sv); return; }
    rc = osqp_warm_start(c->sv, op == 33 ? 0 : xst, op == 32 ? 0 : yst);
    sym_check(rc == 0, "warm-rc");
    return;
  }
  if (op == 34 || op == 35) { /* explicit zeros for the other part */
    F zero[MX];
    for (i = 0; i < MX; i++) zero[i] = 0.0;
    rc = osqp_warm_start(c->sv, op == 35 ? zero : xst, op == 34 ? zero : yst);
    sym_check(rc == 0, "warm-rc");
    return;
  }
  if (op == 40) { /* l > u in the last row */
    F l1[MX], u1[MX], q1[MX];
    for (i = 0; i < m; i++) { l1[i] = symd("bl", i, -1); u1[i] = symd("bu", i, -1); }
    for (i = 0; i < n; i++) q1[i] = symd("bq", i, -1);
    if (sym_param("badside", 0) == 0) sym_assume(l1[m - 1] > u1[m - 1]);
    if (sym_param("badside", 0) == 1) sym_assume(l1[m - 1] > c->u[m - 1]);
    if (sym_param("badside", 0) == 2) sym_assume(u1[m - 1] < c->l[m - 1]);
    rc = osqp_update_data_vec(c->sv, q1, sym_param("badside", 0) == 2 ? 0 : l1, sym_param("badside", 0) == 1 ? 0 : u1);
    sym_check(rc != 0, "P13.bad-bounds-rejected");
    return;
  }
  if (op == 41 || op == 44 || op == 45 || op == 46 || op == 51 || op == 52) {
    for (i = 0; i < MX * MX; i++) { v1[i] = 5.0 + (F)i; v2[i] = -3.0 - (F)i; i1[i] = i2[i] = 0; }
    if (op == 41) rc = osqp_update_data_mat(c->sv, v1, i1, c->P.nnz + 1, v2, 0, c->A.nnz);
    else if (op == 44) rc = osqp_update_data_mat(c->sv, v1, 0, c->P.nnz - 1, v2, 0, c->A.nnz);
    else if (op == 45) rc = osqp_update_data_mat(c->sv, v1, 0, c->P.nnz, v2, i2, c->A.nnz + 1);
    else if (op == 51) rc = osqp_update_data_mat(c->sv, v1, i1, -1, v2, 0, c->A.nnz);
    else if (op == 52) rc = osqp_update_data_mat(c->sv, v1, 0, c->P.nnz, v2, i2, -1);
    else rc = osqp_update_data_mat(c->sv, v1, 0, c->P.nnz, v2, 0, c->A.nnz - 1);
    sym_check(rc == (op == 41 || op == 44 || op == 51 ? 1 : 2), "P13.bad-matrix-update-code");
    return;
  }
  if (op == 43) {
    F r = symd("badrho", -1, -1);
    sym_assume(r <= 0.0);
    rc = osqp_update_rho(c->sv, r);
    sym_check(rc != 0, "P13.bad-rho-rejected");
    return;
  }
  if (op == 48 || op == 49) { /* an empty list of positions changes nothing */
    for (i = 0; i < MX * MX; i++) { v1[i] = symd("e", i % 4, -1); i1[i] = 0; }
    rc = osqp_update_data_mat(c->sv, op == 48 ? v1 : 0, op == 48 ? i1 : 0, 0, op == 49 ? v1 : 0, op == 49 ? i1 : 0, 0);
    sym_check(rc == 0, "empty-list-rc");
    return;
  }
  if (op == 47) { rc = osqp_update_data_vec(c->sv, 0, 0, 0); sym_check(rc == 0, "empty-update-rc"); return; }
  if (op == 50) {
    c->so.x = c->sx; c->so.y = c->sy; c->so.prim_inf_cert = c->sp; c->so.dual_inf_cert = c->sd;
    rc = osqp_get_solution(c->sv, &c->so);
    sym_check(rc == 0, "get-rc");
    return;
  }
  if (op == 60) { /* another solver comes to life, works and dies */
    OSQPSettings t3 = c->s; F q3[MX], l3[MX], u3[MX];
    mk_mat(&c3.P, n, n, sym_param("Pm", 15), "P", 1);
    mk_mat(&c3.A, m, n, sym_param("Am", 15), "A", 0);
    for (i = 0; i < n; i++) q3[i] = sym_paramd("q3", 1.0) * (3.0 + (F)i);
    for (i = 0; i < m; i++) { l3[i] = -1.0; u3[i] = 2.0; }
    t3.rho = 0.75; t3.alpha = 1.0;
    rc = osqp_setup(&c3.sv, &c3.P.M, q3, &c3.A.M, l3, u3, m, n, &t3);
    sym_check(rc == 0, "setup3-rc");
    if (sym_param("busy", 0)) { /* it goes through the same updates with the same and other values */
      osqp_update_rho(c3.sv, sym_paramd("rho1", 0.7)); osqp_update_data_vec(c3.sv, q3, l3, u3); osqp_update_data_mat(c3.sv, c3.P.x, 0, 0, c3.A.x, 0, 0);
      osqp_warm_start(c3.sv, q3, l3); osqp_update_settings(c3.sv, &t3);
    }
    osqp_solve(c3.sv);
    if (sym_param("kill3", 1)) osqp_cleanup(c3.sv);
    return;
  }
  sym_check(0, "unknown-op");
}
static void cmpf(F a, F b, const char* l) { sym_check_eq(a, b, l); }

void harness(void) {
  I i, rc, rc2 = 0, f, early = sym_param("early", 0), ops = sym_param("ops", 2), ops2 = sym_param("ops2", 0), fresh = sym_param("fresh", 1), fin = sym_param("fin", 31);
  n = sym_param("n", 2); m = sym_param("m", 1);
  mk_mat(&c1.P, n, n, sym_param("Pm", 15), "P", 1);
  mk_mat(&c1.A, m, n, sym_param("Am", 15), "A", 0);
  for (i = 0; i < n; i++) c1.q[i] = symd("q", i, -1);
  mk_bounds(c1.l, c1.u, m, "l", "u", sym_param("types", 0));
  for (i = 0; i < n; i++) xst[i] = symd("x0", i, -1);
  for (i = 0; i < m; i++) yst[i] = symd("y0", i, -1);
  mk_settings(&c1.s);
  rc = osqp_setup(&c1.sv, &c1.P.M, c1.q, &c1.A.M, c1.l, c1.u, m, n, &c1.s);
  sym_check(rc == 0, "setup-rc");
  if (rc) return;
  if (!fresh) {
    c2 = c1; c2.sv = 0;
    c2.P.M.p = c2.P.p; c2.P.M.i = c2.P.i; c2.P.M.x = c2.P.x; c2.A.M.p = c2.A.p; c2.A.M.i = c2.A.i; c2.A.M.x = c2.A.x;
    c2.s.warm_starting = sym_param("ws2", c2.s.warm_starting);
    c2.s.verbose = sym_param("verb2", c2.s.verbose);
    rc = osqp_setup(&c2.sv, &c2.P.M, c2.q, &c2.A.M, c2.l, c2.u, m, n, &c2.s);
    for (; ops2; ops2 /= 100) { step(&c2, ops2 % 100); c2.k++; }
    if (early) { /* the reference answer is computed before the other history happens */
      for (f = fin; f; f /= 100) step(&c2, f % 100);
      rc2 = osqp_solve(c2.sv);
    }
  }
  for (; ops; ops /= 100) { step(&c1, ops % 100); c1.k++; }
  if (fresh) {
    c2 = c1; c2.sv = 0;
    c2.P.M.p = c2.P.p; c2.P.M.i = c2.P.i; c2.P.M.x = c2.P.x; c2.A.M.p = c2.A.p; c2.A.M.i = c2.A.i; c2.A.M.x = c2.A.x;
    rc = osqp_setup(&c2.sv, &c2.P.M, c2.q, &c2.A.M, c2.l, c2.u, m, n, &c2.s);
    sym_check(rc == 0, "setup2-rc");
    if (rc) return;
  }
  for (; fin; fin /= 100) { step(&c1, fin % 100); if (!early) step(&c2, fin % 100); }
  if (sym_param("cmpget", 0)) {
    sym_cover("compared-get");
    for (i = 0; i < n; i++) { cmpf(c1.sx[i], c2.sx[i], "get-x"); cmpf(c1.sd[i], c2.sd[i], "get-dual-cert"); }
    for (i = 0; i < m; i++) { cmpf(c1.sy[i], c2.sy[i], "get-y"); cmpf(c1.sp[i], c2.sp[i], "get-prim-cert"); }
    sym_check(c1.sv->info->status_val == c2.sv->info->status_val, "get-status");
    if (sym_param("stopget", 0)) return;
  }
  rc = osqp_solve(c1.sv);
  if (!early) rc2 = osqp_solve(c2.sv);
  sym_check(rc2 == rc, "final-rc");
  sym_cover("compared");
  sym_check(c1.sv->info->status_val == c2.sv->info->status_val, "status");
  sym_check(c1.sv->info->iter == c2.sv->info->iter, "iter");
  if (rc) return;
  for (i = 0; i < n; i++) cmpf(c1.sv->solution->x[i], c2.sv->solution->x[i], "x");
  for (i = 0; i < m; i++) cmpf(c1.sv->solution->y[i], c2.sv->solution->y[i], "y");
  for (i = 0; i < m; i++) cmpf(c1.sv->solution->prim_inf_cert[i], c2.sv->solution->prim_inf_cert[i], "prim-cert");
  for (i = 0; i < n; i++) cmpf(c1.sv->solution->dual_inf_cert[i], c2.sv->solution->dual_inf_cert[i], "dual-cert");
  cmpf(c1.sv->info->obj_val, c2.sv->info->obj_val, "obj");
  cmpf(c1.sv->info->dual_obj_val, c2.sv->info->dual_obj_val, "dual-obj");
  cmpf(c1.sv->info->prim_res, c2.sv->info->prim_res, "prim-res");
  cmpf(c1.sv->info->dual_res, c2.sv->info->dual_res, "dual-res");
  cmpf(c1.sv->info->duality_gap, c2.sv->info->duality_gap, "gap");
  cmpf(c1.sv->info->rel_kkt_error, c2.sv->info->rel_kkt_error, "rel-kkt");
  if (sym_param("chkrho", 1)) cmpf(c1.sv->info->rho_estimate, c2.sv->info->rho_estimate, "rho-estimate");
  if (c1.sv->info->status_polish == OSQP_POLISH_SUCCESS) sym_cover("polished");
  sym_check(c1.sv->info->status_polish == c2.sv->info->status_polish, "polish-status");
  sym_check(c1.sv->info->rho_updates == c2.sv->info->rho_updates, "rho-updates");
  cmpf(c1.sv->info->primdual_int, c2.sv->info->primdual_int, "primdual-int");
  sym_observe_int("status", c1.sv->info->status_val);
  for (i = 0; i < n; i++) obs("x", i, c1.sv->solution->x[i]);
  for (i = 0; i < m; i++) obs("y", i, c1.sv->solution->y[i]);
}
