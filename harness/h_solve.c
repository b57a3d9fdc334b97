/* setup + (warm start) + solve(s) on one problem; checks everything in user units from user data */
#include "internal.h"
static Mat P, A;
static F q[MX], l[MX], u[MX], xw[MX], yw[MX], zw[MX];
static OSQPSettings s;

static F rho_of(I i, F rho) { /* per-constraint step size, from the documentation */
  if (!s.rho_is_vec) return rho;
  if (l[i] <= -1e26 && u[i] >= 1e26) return 1e-6;
  if (u[i] - l[i] < 1e-4) return 1e3 * rho;
  return rho;
}
static F winf(const F* x, const F* w, I n) { I i; F v = 0.0; for (i = 0; i < n; i++) v = fmax_(v, fabs_(x[i]) * w[i]); return v; }
static F inf_l(I i) { return l[i] <= -1e26; }
static F inf_u(I i) { return u[i] >= 1e26; }

void harness(void) {
  I n = sym_param("n", 2), m = sym_param("m", 2), i, rc, ws = sym_param("ws", 0), what = sym_param("what", 0);
  OSQPSolver* sv = 0; OSQPWorkspace* w; OSQPInfo* inf; OSQPSolution* so;
  F Ax[MX], Px[MX], Aty[MX], x[MX], y[MX], z[MX], r[MX]; F pr, dr, gap, xpx, qx, sc, eps_p, eps_d, eps_g;
  I st, k10;
  mk_mat(&P, n, n, sym_param("Pm", 15), "P", 1);
  mk_mat(&A, m, n, sym_param("Am", 15), "A", 0);
  for (i = 0; i < n; i++) q[i] = symd("q", i, -1);
  mk_bounds(l, u, m, "l", "u", sym_param("types", 0));
  mk_settings(&s);
  if (sym_param("symeps", 0)) {
    s.eps_abs = sym_pos("eps_abs"); s.eps_rel = sym_pos("eps_rel");
    sym_assume(s.eps_abs < 1); sym_assume(s.eps_rel < 1);
  }
  if (sym_param("symepsinf", 0)) {
    s.eps_prim_inf = sym_pos("eps_pinf"); s.eps_dual_inf = sym_pos("eps_dinf");
    sym_assume(s.eps_prim_inf < 1); sym_assume(s.eps_dual_inf < 1);
  }
  if (sym_param("symalpha", 0)) { s.alpha = sym_pos("alpha"); sym_assume(s.alpha < 2); }
  rc = osqp_setup(&sv, &P.M, q, &A.M, l, u, m, n, &s);
  sym_check(rc == 0, "setup-ok");
  if (rc) return;
  w = sv->work; inf = sv->info; so = sv->solution;
  for (i = 0; i < n; i++) { xw[i] = 0.0; }
  for (i = 0; i < m; i++) { yw[i] = 0.0; zw[i] = 0.0; }
  if (ws) {
    if (ws & 1) for (i = 0; i < n; i++) xw[i] = symd("x0", i, -1);
    if (ws & 2) for (i = 0; i < m; i++) yw[i] = symd("y0", i, -1);
    rc = osqp_warm_start(sv, (ws & 1) ? xw : 0, (ws & 2) ? yw : 0);
    sym_check(rc == 0, "warm-ok");
    if (ws & 1) mulv(&A, m, n, xw, zw);
    if (ws & 4) { for (i = 0; i < m; i++) zw[i] = symd("z0", i, -1); putv(w->z, zw, m); }
  }
  rc = osqp_solve(sv);
  sym_check(rc == 0, "solve-ok");
  if (rc) return;
  sym_cover("solved");
  st = inf->status_val;
  sym_observe_int("status", st);
  if (what & 64) sym_check(st >= OSQP_SOLVED && st < OSQP_UNSOLVED, "P06.no-status");
  for (i = 0; i < n; i++) obs("x", i, so->x[i]);
  for (i = 0; i < m; i++) obs("y", i, so->y[i]);
  obs("prim_res", -1, inf->prim_res); obs("dual_res", -1, inf->dual_res); obs("obj", -1, inf->obj_val);

  getv(w->x, w->scaling ? w->scaling->D : 0, n, x);
  getv(w->z, w->scaling ? w->scaling->Einv : 0, m, z);
  getv(w->y, w->scaling ? w->scaling->E : 0, m, y);
  if (w->scaling) for (i = 0; i < m; i++) y[i] = y[i] * w->scaling->cinv;

  if (what & 4) { /* ADMM step, one iteration from (x0, z0, y0); on the scaled problem the steps are rho E^2/c and sigma/(c D^2) */
    F xt[MX], zt[MX], v[MX], t[MX], rho[MX], sg[MX], D[MX], E[MX]; F a = s.alpha, ia = 1.0 / s.alpha;
    for (i = 0; i < n; i++) sg[i] = s.sigma;
    if (w->scaling) {
      getv(w->scaling->Dinv, 0, n, D); getv(w->scaling->E, 0, m, E);
      for (i = 0; i < n; i++) sg[i] = s.sigma * D[i] * D[i] * w->scaling->cinv;
    }
    for (i = 0; i < n; i++) xt[i] = (x[i] - (1.0 - a) * xw[i]) * ia;
    mulv(&A, m, n, xt, zt); mulv(&P, n, n, xt, Px);
    for (i = 0; i < m; i++) { rho[i] = rho_of(i, s.rho); if (w->scaling) rho[i] = rho[i] * E[i] * E[i] * w->scaling->cinv; v[i] = rho[i] * (zt[i] - zw[i]) + yw[i]; }
    mulTv(&A, m, n, v, t);
    if (st != OSQP_PRIMAL_INFEASIBLE && st != OSQP_DUAL_INFEASIBLE && st != OSQP_PRIMAL_INFEASIBLE_INACCURATE && st != OSQP_DUAL_INFEASIBLE_INACCURATE && st != OSQP_NON_CVX) {
      sym_cover("step");
      for (i = 0; i < n; i++) chk_eq(Px[i] + sg[i] * (xt[i] - xw[i]) + q[i] + t[i], 0.0, "P09.x-step", i, -1);
      for (i = 0; i < m; i++) {
        F zz = a * zt[i] + (1.0 - a) * zw[i] + yw[i] / rho[i];
        chk_eq(z[i], fmin_(fmax_(zz, l[i]), u[i]), "P09.z-step", i, -1);
        chk_eq(y[i], rho[i] * (zz - z[i]), "P09.y-step", i, -1);
      }
    }
  }
  if (what & 128) { /* invariants of every iterate: z in [l,u], y in the normal cone of [l,u] at z */
    if (st != OSQP_PRIMAL_INFEASIBLE && st != OSQP_DUAL_INFEASIBLE && st != OSQP_PRIMAL_INFEASIBLE_INACCURATE && st != OSQP_DUAL_INFEASIBLE_INACCURATE && st != OSQP_NON_CVX) {
      sym_cover("inv");
      for (i = 0; i < m; i++) {
        sym_check_le(l[i], z[i], "P09.z-ge-l"); sym_check_le(z[i], u[i], "P09.z-le-u");
        if (y[i] > 1e-9) sym_check_eq(z[i], u[i], "P09.y-pos-at-u");
        if (y[i] < -1e-9) sym_check_eq(z[i], l[i], "P09.y-neg-at-l");
      }
    }
  }
  if (what & 3 || what & 64 || what & 256) {
    F na, nz, np, nq, nt, wd[MX], we[MX], wc; I wst;
    F xs[MX], ys[MX];
    if (st == OSQP_SOLVED || st == OSQP_SOLVED_INACCURATE || st == OSQP_MAX_ITER_REACHED || st == OSQP_TIME_LIMIT_REACHED) {
      I pst = so != 0;
      for (i = 0; i < n; i++) xs[i] = so->x[i];
      for (i = 0; i < m; i++) ys[i] = so->y[i];
      mulv(&A, m, n, xs, Ax); mulv(&P, n, n, xs, Px); mulTv(&A, m, n, ys, Aty);
      for (i = 0; i < m; i++) r[i] = Ax[i] - z[i];
      pr = ninf(r, m);
      for (i = 0; i < n; i++) r[i] = Px[i] + q[i] + Aty[i];
      dr = ninf(r, n);
      xpx = dot(xs, Px, n); qx = dot(q, xs, n);
      sc = 0.0;
      for (i = 0; i < m; i++) {
        if (!inf_u(i)) sc += u[i] * fmax_(ys[i], 0.0);
        if (!inf_l(i)) sc += l[i] * fmin_(ys[i], 0.0);
      }
      gap = xpx + qx + sc;
      (void)pst;
      wst = s.scaled_termination && w->scaling;
      for (i = 0; i < MX; i++) wd[i] = we[i] = 1.0;
      wc = 1.0;
      if (wst) { /* documented: with scaled termination the test is made on the scaled problem */
        wc = w->scaling->c;
        getv(w->scaling->D, 0, n, wd); getv(w->scaling->E, 0, m, we);
        for (i = 0; i < n; i++) wd[i] = wc * wd[i];
      }
      if (what & 2) {
        sym_cover("info");
        if (!s.scaled_termination) { /* with scaled termination the residuals are reported in scaled units */
          sym_check_eq(inf->prim_res, pr, "P07.prim_res");
          sym_check_eq(inf->dual_res, dr, "P07.dual_res");
        }
        sym_check_eq(inf->obj_val, 0.5 * xpx + qx, "P07.obj_val");
        if (s.max_iter == 1 && !s.polishing) sym_check_eq(inf->primdual_int, fabs_(inf->duality_gap), "P07.primdual_int");
        if (what & 512) {
          F t9 = inf->dual_obj_val - (-0.5 * xpx - sc);
          sym_check_le(t9, 1e-8, "P07.dual_obj_val"); sym_check_le(-t9, 1e-8, "P07.dual_obj_val");
          t9 = inf->duality_gap - gap; sym_check_le(t9, 1e-8, "P07.duality_gap"); sym_check_le(-t9, 1e-8, "P07.duality_gap");
          if ((what & 4096) && !s.scaled_termination) sym_check_eq(inf->rel_kkt_error, fmax_(fmax_(pr, dr), fabs_(inf->duality_gap)), "P07.rel_kkt");
        }
      }
      if (what & 1) {
        k10 = st == OSQP_SOLVED_INACCURATE ? 10 : 1;
        if (st == OSQP_SOLVED || st == OSQP_SOLVED_INACCURATE) {
          sym_cover(st == OSQP_SOLVED ? "is-solved" : "is-inaccurate");
          na = winf(Ax, we, m); nz = winf(z, we, m); np = winf(Px, wd, n); nq = winf(q, wd, n); nt = winf(Aty, wd, n);
          if (wst) { for (i = 0; i < m; i++) r[i] = Ax[i] - z[i]; pr = winf(r, we, m); for (i = 0; i < n; i++) r[i] = Px[i] + q[i] + Aty[i]; dr = winf(r, wd, n); }
          eps_p = (F)k10 * (s.eps_abs + s.eps_rel * fmax_(na, nz));
          eps_d = (F)k10 * (s.eps_abs + s.eps_rel * fmax_(np, fmax_(nq, nt)));
          for (i = 0; i < m; i++) { sym_check_le(l[i], z[i], "P03.z-ge-l"); sym_check_le(z[i], u[i], "P03.z-le-u"); }
          sym_check_le(pr, eps_p, "P03.primal");
          sym_check_le(dr, eps_d, "P03.dual");
          if (s.check_dualgap) {
            eps_g = (F)k10 * (s.eps_abs + s.eps_rel * wc * fmax_(fabs_(xpx), fmax_(fabs_(qx), fabs_(sc))));
            sym_check_le(wc * fabs_(gap), eps_g, "P03.gap");
          }
        }
      }
      if (what & 64) { /* converse: limits only when no test passes */
        na = winf(Ax, we, m); nz = winf(z, we, m); np = winf(Px, wd, n); nq = winf(q, wd, n); nt = winf(Aty, wd, n);
        if (wst) { for (i = 0; i < m; i++) r[i] = Ax[i] - z[i]; pr = winf(r, we, m); for (i = 0; i < n; i++) r[i] = Px[i] + q[i] + Aty[i]; dr = winf(r, wd, n); }
        eps_p = s.eps_abs + s.eps_rel * fmax_(na, nz);
        eps_d = s.eps_abs + s.eps_rel * fmax_(np, fmax_(nq, nt));
        eps_g = s.eps_abs + s.eps_rel * wc * fmax_(fabs_(xpx), fmax_(fabs_(qx), fabs_(sc)));
        if (st != OSQP_SOLVED) {
          I g1 = 1, g10 = 1;
          if (s.check_dualgap) { g1 = wc * fabs_(gap) < eps_g - 1e-8; g10 = wc * fabs_(gap) < 10.0 * eps_g - 1e-8; /* terms below 1e-15 count as zero in the gap */ }
          sym_cover("not-solved");
          sym_check(!(pr < eps_p && dr < eps_d && g1), "P06.converged-but-not-solved");
          if (st != OSQP_SOLVED_INACCURATE) sym_check(!(pr < 10.0 * eps_p && dr < 10.0 * eps_d && g10), "P06.near-but-not-inaccurate");
        }
        if (st == OSQP_SOLVED_INACCURATE || st == OSQP_MAX_ITER_REACHED) sym_check(inf->iter == s.max_iter, "P06.limit-iter");
      }
    }
  }
  if ((what & 8192) && (st == OSQP_SOLVED_INACCURATE || st == OSQP_MAX_ITER_REACHED)) {
    /* converse: the step this one iteration took certifies infeasibility, yet the solve went on to its limit
       (an infeasibility test is only made when the residual it belongs to is not within tolerance) */
    F dx[MX], dy[MX], cn, sp = 0.0, ok; F xs[MX], ys[MX];
    for (i = 0; i < n; i++) { xs[i] = so->x[i]; dx[i] = xs[i] - xw[i]; }
    for (i = 0; i < m; i++) { ys[i] = so->y[i]; dy[i] = ys[i] - yw[i]; if (inf_u(i)) dy[i] = fmin_(dy[i], 0.0); if (inf_l(i)) dy[i] = fmax_(dy[i], 0.0); }
    mulv(&A, m, n, xs, Ax); mulv(&P, n, n, xs, Px); mulTv(&A, m, n, ys, Aty);
    for (i = 0; i < m; i++) r[i] = Ax[i] - z[i];
    pr = ninf(r, m);
    for (i = 0; i < n; i++) r[i] = Px[i] + q[i] + Aty[i];
    dr = ninf(r, n);
    eps_p = 10.0 * (s.eps_abs + s.eps_rel * fmax_(ninf(Ax, m), ninf(z, m)));
    eps_d = 10.0 * (s.eps_abs + s.eps_rel * fmax_(ninf(Px, n), fmax_(ninf(q, n), ninf(Aty, n))));
    cn = ninf(dy, m); mulTv(&A, m, n, dy, Aty);
    for (i = 0; i < m; i++) {
      if (!inf_u(i)) sp += u[i] * fmax_(dy[i], 0.0);
      if (!inf_l(i)) sp += l[i] * fmin_(dy[i], 0.0);
    }
    if (m) {
      sym_cover("no-pinf");
      sym_check(!(pr >= eps_p && sp < 0.0 && cn > 1e-6 && ninf(Aty, n) < s.eps_prim_inf * cn), "P06.certified-but-not-infeasible");
    }
    cn = ninf(dx, n); mulv(&P, n, n, dx, Px); mulv(&A, m, n, dx, Ax); ok = 1;
    for (i = 0; i < m; i++) {
      if (!inf_u(i) && Ax[i] >= s.eps_dual_inf * cn) ok = 0;
      if (!inf_l(i) && Ax[i] <= -s.eps_dual_inf * cn) ok = 0;
    }
    sym_cover("no-dinf");
    sym_check(!(dr >= eps_d && dot(q, dx, n) < 0.0 && cn > 1e-6 && ok && ninf(Px, n) < s.eps_dual_inf * cn), "P06.certified-but-not-unbounded");
  }
  if (what & 32768) { /* divergence is reported, and then there is no solution */
    I big = (inf->prim_res > 1e30) | (inf->dual_res > 1e30);
    if (st == OSQP_NON_CVX) {
      sym_cover("nonconvex");
      sym_check(big, "P34.bounded-but-nonconvex");
      for (i = 0; i < n; i++) { sym_check(so->x[i] == OSQP_NAN, "P34.x-nan"); sym_check(so->dual_inf_cert[i] == OSQP_NAN, "P34.dual-cert-nan"); }
      for (i = 0; i < m; i++) { sym_check(so->y[i] == OSQP_NAN, "P34.y-nan"); sym_check(so->prim_inf_cert[i] == OSQP_NAN, "P34.prim-cert-nan"); }
      sym_check(inf->obj_val == OSQP_NAN, "P34.obj-nan");
      sym_check(!strcmp(inf->status, "problem non convex"), "P34.status-text");
    }
    else { sym_cover("bounded"); sym_check(!big, "P34.divergence-not-reported"); }
  }
  if (what & 16384) { /* the same run with a smaller limit: the tests are made at every multiple of the interval, and end the run */
    OSQPSolver* s2 = 0; OSQPSettings t = s; I k1 = sym_param("k1", 1), c = s.check_termination, st2;
    t.max_iter = k1;
    rc = osqp_setup(&s2, &P.M, q, &A.M, l, u, m, n, &t);
    sym_check(rc == 0, "setup2-ok");
    if (rc) return;
    if (ws) { rc = osqp_warm_start(s2, (ws & 1) ? xw : 0, (ws & 2) ? yw : 0); sym_check(rc == 0, "warm2-ok"); }
    rc = osqp_solve(s2);
    sym_check(rc == 0, "solve2-ok");
    st2 = s2->info->status_val;
    sym_observe_int("status2", st2);
    if (inf->iter < s.max_iter) { sym_cover("stopped-before-limit"); sym_check(c > 0 && inf->iter % c == 0, "P06.stopped-between-tests"); }
    if (c > 0 && k1 % c == 0) {
      if (st2 == OSQP_SOLVED || st2 == OSQP_PRIMAL_INFEASIBLE || st2 == OSQP_DUAL_INFEASIBLE || st2 == OSQP_NON_CVX) {
        sym_cover("earlier-stop");
        sym_check(inf->iter <= k1, "P06.went-on-after-passing"); sym_check(st == st2, "P06.early-status");
        sym_check(inf->iter == s2->info->iter, "P06.early-iter");
        for (i = 0; i < n; i++) chk_eq(so->x[i], s2->solution->x[i], "P06.early-x", i, -1);
        for (i = 0; i < m; i++) chk_eq(so->y[i], s2->solution->y[i], "P06.early-y", i, -1);
      }
      else { sym_cover("later-stop"); sym_check(inf->iter > k1, "P06.stopped-without-passing"); }
    }
  }
  if (what & 8) { /* primal infeasibility certificate */
    if (st == OSQP_PRIMAL_INFEASIBLE || st == OSQP_PRIMAL_INFEASIBLE_INACCURATE) {
      F c[MX], cn, sp = 0.0, k = (st == OSQP_PRIMAL_INFEASIBLE ? 1.0 : 10.0) * sym_paramd("slack", 1.0);
      sym_cover("pinf");
      for (i = 0; i < m; i++) c[i] = so->prim_inf_cert[i];
      cn = ninf(c, m);
      if (!sym_param("nonorm", 0)) sym_check_eq(cn, 1.0, "P04.unit-norm");
      mulTv(&A, m, n, c, Aty);
      sym_check_le(ninf(Aty, n), k * s.eps_prim_inf * cn, "P04.At-cert-small");
      for (i = 0; i < m; i++) {
        if (inf_u(i)) sym_check_le(c[i], 0.0, "P04.sign-upper"); else sp += u[i] * fmax_(c[i], 0.0);
        if (inf_l(i)) sym_check_le(0.0, c[i], "P04.sign-lower"); else sp += l[i] * fmin_(c[i], 0.0);
      }
      sym_check_lt(sp, 0.0, "P04.support-negative");
      sym_check(inf->obj_val == OSQP_INFTY, "P04.obj");
      for (i = 0; i < n; i++) sym_check(so->x[i] == OSQP_NAN || so->x[i] != so->x[i], "P04.x-nan");
      for (i = 0; i < m; i++) sym_check(so->y[i] == OSQP_NAN || so->y[i] != so->y[i], "P04.y-nan");
      for (i = 0; i < n; i++) sym_check(so->dual_inf_cert[i] == OSQP_NAN || so->dual_inf_cert[i] != so->dual_inf_cert[i], "P04.other-cert-nan");
      if (sym_param("k10", 0) == 0) sym_check(inf->iter <= s.max_iter, "P04.iter");
    }
  }
  if (what & 16) { /* dual infeasibility certificate */
    if (st == OSQP_DUAL_INFEASIBLE || st == OSQP_DUAL_INFEASIBLE_INACCURATE) {
      F c[MX], cn, k = (st == OSQP_DUAL_INFEASIBLE ? 1.0 : 10.0) * sym_paramd("slack", 1.0);
      sym_cover("dinf");
      for (i = 0; i < n; i++) c[i] = so->dual_inf_cert[i];
      cn = ninf(c, n);
      if (!sym_param("nonorm", 0)) sym_check_eq(cn, 1.0, "P05.unit-norm");
      mulv(&P, n, n, c, Px); mulv(&A, m, n, c, Ax);
      sym_check_lt(dot(q, c, n), 0.0, "P05.q-cert-negative");
      sym_check_le(ninf(Px, n), k * s.eps_dual_inf * cn, "P05.P-cert-small");
      for (i = 0; i < m; i++) {
        if (!inf_u(i)) sym_check_le(Ax[i], k * s.eps_dual_inf * cn, "P05.A-upper");
        if (!inf_l(i)) sym_check_le(-k * s.eps_dual_inf * cn, Ax[i], "P05.A-lower");
      }
      sym_check(inf->obj_val == -OSQP_INFTY, "P05.obj");
      for (i = 0; i < n; i++) sym_check(so->x[i] == OSQP_NAN || so->x[i] != so->x[i], "P05.x-nan");
      for (i = 0; i < m; i++) sym_check(so->prim_inf_cert[i] == OSQP_NAN || so->prim_inf_cert[i] != so->prim_inf_cert[i], "P05.other-cert-nan");
    }
  }
  if (what & 1024) { /* feasible and bounded problems are never declared infeasible */
    sym_check(st != OSQP_PRIMAL_INFEASIBLE, "P04.feasible-declared-infeasible");
  }
  if (what & 2048) sym_check(st != OSQP_DUAL_INFEASIBLE, "P05.bounded-declared-unbounded");
}
