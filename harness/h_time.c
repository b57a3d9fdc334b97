/* The clock, interrupts and the adaptation of rho.  The clock is an arbitrary non-decreasing sequence indexed by the
   number of factorisations and linear solves done so far (nothing else in a run with n=m=1 takes time). */
#include "internal.h"
#include "auxil.h"
#include <signal.h>
#define NT 20
static Mat P, A;
static F q[MX], l[MX], u[MX];
static OSQPSettings s;
static OSQPSolver* sv;
static I n, m, mode;
static F t[NT];
static I nev, insolve, inpol, k, evk[128], evpol, irq, nadapt, last_ad, interval, rel_ok;
static F rho0, last_kkt, frac;
static int nsig;

static F clk(void) { return t[nev]; }
static void mine(int x) { nsig += x; }

/* residual balance at a point, in the user's data (scaling off): the documented estimate is
   rho * sqrt((pr / pn) / (dr / dn)), i.e. est^2 * b == rho^2 * a with a = pr*dn, b = dr*pn */
static I ratio(const F* x, const F* z, const F* y, F* num, F* den) {
  F Ax[MX], Px[MX], Aty[MX], a[MX], b[MX], pr, dr, pn, dn; I i;
  mulv(&A, m, n, x, Ax); mulv(&P, n, n, x, Px); mulTv(&A, m, n, y, Aty);
  for (i = 0; i < m; i++) a[i] = Ax[i] - z[i];
  for (i = 0; i < n; i++) b[i] = Px[i] + q[i] + Aty[i];
  pr = ninf(a, m); dr = ninf(b, n);
  pn = fmax_(ninf(z, m), ninf(Ax, m)) + 1e-30;
  dn = fmax_(ninf(q, n), fmax_(ninf(Px, n), ninf(Aty, n))) + 1e-30;
  *num = pr * dn; *den = dr * pn;
  return dr > 0.0;
}
#define REL (1.0 + 1e-9)   /* square roots of constants are rounded */
static void is_est(F v, F rho, F a, F b, const char* lab) { /* v == clip(rho * sqrt(a / b)) */
  if (v <= 1e-6) { sym_check(v == 1e-6, lab); sym_check_le(rho * rho * a, REL * 1e-12 * b, lab); return; }
  if (v >= 1e6) { sym_check(v == 1e6, lab); sym_check_le(1e12 * b, REL * rho * rho * a, lab); return; }
  sym_check_le(v * v * b, REL * rho * rho * a, lab);
  sym_check_le(rho * rho * a, REL * v * v * b, lab);
}
static I due(I j) { /* is adaptation considered at iteration j? */
  if (s.adaptive_rho == OSQP_ADAPTIVE_RHO_UPDATE_DISABLED) return 0;
  if (s.adaptive_rho == OSQP_ADAPTIVE_RHO_UPDATE_TIME && interval == 0) {
    if (t[evk[j]] - t[evk[0]] > frac * sv->info->setup_time) {
      I c = s.check_termination ? s.check_termination : 25, a = 0;
      while (2 * j >= (2 * a + 1) * c) a++;      /* nearest multiple of c */
      interval = a * c;
      if (interval < s.check_termination) interval = s.check_termination;
      if (interval < 1) interval = 1;
    }
    else return 0;
  }
  if (interval <= 0) return 0;
  interval = sym_split(interval);
  return j % interval == 0;
}
static void missed(const OSQPVectorf* x, const OSQPVectorf* z, const OSQPVectorf* y) { /* iteration k ended without a change */
  F xv[MX], zv[MX], yv[MX], a, b; I ok; F tol = s.adaptive_rho_tolerance, rho = sv->settings->rho;
  if (s.adaptive_rho == OSQP_ADAPTIVE_RHO_UPDATE_KKT_ERROR && !(sv->info->rel_kkt_error <= frac * last_kkt)) return;
  getv(x, 0, n, xv); getv(z, 0, m, zv); getv(y, 0, m, yv);
  ok = ratio(xv, zv, yv, &a, &b);
  if (!ok) return;
  sym_cover("not-adapted");
  if (1e6 > rho * tol) sym_check_le(a, REL * tol * tol * b, "P15.missed-increase");
  if (1e-6 * tol < rho) sym_check_le(b, REL * tol * tol * a, "P15.missed-decrease");
}
static void on_adapt(void) {
  F xv[MX], zv[MX], yv[MX], a, b; I ok; F tol = s.adaptive_rho_tolerance, nw = sv->settings->rho;
  sym_cover("adapted");
  nadapt++;
  sym_check(last_ad != k, "P15.twice-in-one-iteration");
  sym_check(due(k), "P15.not-due");
  last_ad = k;
  if (s.adaptive_rho == OSQP_ADAPTIVE_RHO_UPDATE_KKT_ERROR) {
    sym_check_le(sv->info->rel_kkt_error, frac * last_kkt, "P15.kkt-not-decreased");
    last_kkt = sv->info->rel_kkt_error;
  }
  getv(sv->work->x, 0, n, xv); getv(sv->work->z, 0, m, zv); getv(sv->work->y, 0, m, yv);
  ok = ratio(xv, zv, yv, &a, &b);
  if (ok) is_est(nw, rho0, a, b, "P15.new-rho");
  sym_check(nw > rho0 * tol || nw * tol < rho0, "P15.within-tolerance");
  rho0 = nw;
}
static void hk(long long ph) {
  if (insolve && ph == 11) { inpol = 1; evpol = nev; }
  if (insolve && !inpol && ph == 22 && mode == 15) on_adapt();
  if (insolve && !inpol && ph == 33) {
    if (mode == 15 && k > 0 && last_ad != k && due(k)) missed(sv->work->x_prev, sv->work->z_prev, sv->work->y);
    k++;
    if (k == irq) raise(SIGINT);
  }
  if ((ph == 22 || ph == 33) && nev < NT - 1) nev++;
  if (insolve && !inpol && ph == 33) evk[k] = nev;
}
static void start(void) { insolve = 1; inpol = 0; k = 0; evk[0] = nev; evpol = -1; nadapt = 0; last_ad = -1; }

static void point(I st) { /* the information describes the point */
  F Ax[MX], Px[MX], Aty[MX], a[MX], b[MX], *x, *y, zv[MX]; I i;
  if (!(st == OSQP_SOLVED || st == OSQP_SOLVED_INACCURATE || st == OSQP_MAX_ITER_REACHED || st == OSQP_TIME_LIMIT_REACHED)) return;
  sym_cover("point");
  x = sv->solution->x; y = sv->solution->y;
  getv(sv->work->z, 0, m, zv);
  mulv(&A, m, n, x, Ax); mulv(&P, n, n, x, Px); mulTv(&A, m, n, y, Aty);
  for (i = 0; i < m; i++) a[i] = Ax[i] - zv[i];
  for (i = 0; i < n; i++) b[i] = Px[i] + q[i] + Aty[i];
  sym_check_eq(sv->info->prim_res, ninf(a, m), "P08.prim_res");
  sym_check_eq(sv->info->dual_res, ninf(b, n), "P08.dual_res");
  sym_check_eq(sv->info->obj_val, 0.5 * dot(x, Px, n) + dot(q, x, n), "P08.obj_val");
  if (mode == 8 && st == OSQP_TIME_LIMIT_REACHED && !s.check_dualgap) { /* reported only when no test passes */
    sym_check(!(ninf(a, m) < 10.0 * (s.eps_abs + s.eps_rel * fmax_(ninf(Ax, m), ninf(zv, m))) &&
                ninf(b, n) < 10.0 * (s.eps_abs + s.eps_rel * fmax_(ninf(q, n), fmax_(ninf(Px, n), ninf(Aty, n))))), "P08.limit-but-near");
  }
}
static void p08(F base) {
  I rc, j, st, last; F lim = s.time_limit;
  start();
  rc = osqp_solve(sv);
  insolve = 0;
  sym_check(rc == 0, "P08.rc");
  st = sv->info->status_val;
  sym_observe_int("status", st); sym_observe_int("iter", sv->info->iter);
  sym_check(k <= s.max_iter, "P08.too-many-iterations");
  sym_check(k >= 1, "P08.no-iteration");
  sym_check(sv->info->iter == k, "P08.iter");
  for (j = 1; j < k; j++) sym_check(base + t[evk[j]] - t[evk[0]] < lim, "P08.ran-past-limit");
  if (base + t[evk[k]] - t[evk[0]] >= lim) { sym_cover("limit"); sym_check(st != OSQP_MAX_ITER_REACHED, "P08.limit-not-reported"); }
  else {
    sym_cover("in-time"); sym_check(st != OSQP_TIME_LIMIT_REACHED, "P08.limit-reported-early");
    if (st == OSQP_MAX_ITER_REACHED) sym_check(k == s.max_iter, "P08.stopped-early");
  }
  last = inpol ? evpol : evk[k];
  sym_check_eq(sv->info->solve_time, t[last] - t[evk[0]], "P08.solve_time");
  if (inpol) { sym_cover("polished"); sym_check_eq(sv->info->polish_time, t[nev] - t[evpol], "P08.polish_time"); }
  else sym_check_eq(sv->info->polish_time, 0.0, "P08.polish_time0");
  sym_check_eq(sv->info->run_time, base + sv->info->solve_time + sv->info->polish_time, "P08.run_time");
  if (!s.polishing) point(st);
}
static F upd(I op) { /* a timed update; returns its duration */
  I e = nev, rc = 0; F v[2];
  if (op == 1) rc = osqp_update_rho(sv, 0.75);
  if (op == 2) { v[0] = A.x[0]; rc = osqp_update_data_mat(sv, 0, 0, 0, v, 0, 1); }
  if (op == 3) { v[0] = 1.0; v[1] = 1.0; rc = osqp_update_data_vec(sv, 0, v, v + 1); l[0] = u[0] = 1.0; }
  if (op == 5) { v[0] = q[0]; rc = osqp_update_data_vec(sv, v, 0, 0); }
  if (op == 6) { v[0] = l[0]; rc = osqp_update_data_vec(sv, 0, 0, v); u[0] = l[0]; }
  if (op == 7) { v[0] = u[0]; rc = osqp_update_data_vec(sv, 0, v, 0); l[0] = u[0]; }
  if (op == 8) { s.max_iter = 3 - s.max_iter; rc = osqp_update_settings(sv, &s); }
  if (op == 4) { s.polishing = 1 - s.polishing; rc = osqp_update_settings(sv, &s); }
  sym_check(rc == 0, "P08.update-rc");
  return t[nev] - t[e];
}

void harness(void) {
  I i, rc, st, op, seq; F base, up;
  n = sym_param("n", 1); m = sym_param("m", 1); mode = sym_param("mode", 8);
  mk_mat(&P, n, n, sym_param("Pm", 1), "P", 1);
  mk_mat(&A, m, n, sym_param("Am", 1), "A", 0);
  for (i = 0; i < n; i++) q[i] = symd("q", i, -1);
  mk_bounds(l, u, m, "l", "u", sym_param("types", 0));
  mk_settings(&s);
  if (sym_param("symtime", mode == 8)) {
    s.time_limit = sym_pos("time_limit");
    for (i = 0; i < NT; i++) {
      t[i] = i < sym_param("nt", 6) ? symd("t", i, -1) : t[i - 1];
      if (i) sym_assume(t[i - 1] <= t[i]);
    }
  }
  irq = -1;
  hook_clock = clk; hook_pardiso = hk;
  if ((mode == 15 || mode == 16) && sym_param("symtol", 1)) { s.adaptive_rho_tolerance = sym_pos("tol"); sym_assume(s.adaptive_rho_tolerance >= 1.0); }
  if (mode == 15 && sym_param("symfrac", 0)) s.adaptive_rho_fraction = sym_pos("frac");
  frac = s.adaptive_rho_fraction;
  rc = osqp_setup(&sv, &P.M, q, &A.M, l, u, m, n, &s);
  sym_check(rc == 0, "setup-ok");
  if (rc) return;
  if (mode == 8) {
    base = t[nev] - t[0];
    sym_check_eq(sv->info->setup_time, base, "P08.setup_time");
    sym_check_eq(sv->info->update_time, 0.0, "P08.update_time-after-setup");
    op = sym_param("pre", 0);
    if (op) { up = upd(op); sym_check_eq(sv->info->update_time, up, "P08.update_time-pre"); }
    p08(base);
    for (seq = sym_param("seq", 0); seq; seq /= 10) {
      up = 0.0;
      for (; seq % 10 && seq % 10 != 9; seq /= 10) { up = up + upd(seq % 10); sym_check_eq(sv->info->update_time, up, "P08.update_time"); }
      p08(up);
      sym_check_eq(sv->info->update_time, up, "P08.update_time-kept");
    }
    return;
  }
  if (mode == 31) {
    I e;
    signal(SIGINT, mine);
    irq = sym_split(sym_int("irq", 0, s.max_iter + 1));
    if (sym_param("fail", 0)) { hook_pardiso_error = -3; hook_pardiso_error_phase = sym_param("fail", 0); }
    start();
    rc = osqp_solve(sv);
    insolve = 0;
    st = sv->info->status_val;
    if (irq >= 1 && irq <= k) {
      sym_cover("interrupted");
      sym_check(st == OSQP_SIGINT, "P31.status");
      sym_check(rc != 0, "P31.rc");
      sym_check(k == irq, "P31.not-stopped-at-once");
      sym_check(sv->info->status[0] == 'i' && sv->info->status[1] == 'n' && sv->info->status[2] == 't', "P31.text");
    }
    else {
      sym_cover("not-interrupted");
      sym_check(st != OSQP_SIGINT, "P31.spurious");
      if (!sym_param("fail", 0)) sym_check(rc == 0, "P31.rc0");
      if (!sym_param("fail", 0)) sym_check(irq <= 0 || irq > k, "P31.ignored");
    }
    sym_check(nsig == 0, "P31.old-handler-called-during-solve");
    raise(SIGINT);
    sym_check(nsig == SIGINT, "P31.handler-not-restored");
    sym_check(signal(SIGINT, mine) == mine, "P31.handler-changed");
    irq = -1; hook_pardiso_error = 0;
    if (sym_param("again", 1)) {
      e = nev;
      if (sym_param("upd", 0)) { rc = osqp_update_rho(sv, 0.75); sym_check(rc == 0, "P31.update-rc"); sym_check_eq(sv->info->update_time, t[nev] - t[e], "P31.update-time"); }
      start();
      rc = osqp_solve(sv);
      insolve = 0;
      sym_check(rc == 0 && sv->info->status_val != OSQP_SIGINT, "P31.second-solve");
      sym_check(sv->info->iter == k, "P31.second-iter");
      point(sv->info->status_val);
      sym_check(signal(SIGINT, SIG_DFL) == mine, "P31.handler-changed2");
    }
    return;
  }
  if (mode == 16) { /* the estimate and the decision alone, from an arbitrary state of the solver */
    OSQPWorkspace* w = sv->work; F pr = sym_pos("pr"), dr = sym_pos("dr"), v[MX], pn, dn, a, b, tol, e, rho; I up;
    if (sym_param("prz", 0)) pr = 0.0;
    for (i = 0; i < m; i++) v[i] = symd("z", i, -1);
    putv(w->z, v, m); pn = ninf(v, m);
    for (i = 0; i < m; i++) v[i] = symd("Ax", i, -1);
    putv(w->Ax, v, m); pn = fmax_(pn, ninf(v, m));
    for (i = 0; i < n; i++) v[i] = symd("Px", i, -1);
    putv(w->Px, v, n); dn = fmax_(ninf(q, n), ninf(v, n));
    for (i = 0; i < n; i++) v[i] = symd("Aty", i, -1);
    putv(w->Aty, v, n); dn = fmax_(dn, ninf(v, n));
    w->scaled_prim_res = pr; w->scaled_dual_res = dr;
    a = pr * (dn + 1e-30); b = dr * (pn + 1e-30);
    rho = sym_param("symrho", 1) ? sym_pos("rho") : s.rho;
    sym_assume(rho >= 1e-6); sym_assume(rho <= 1e6);
    sv->settings->rho = rho;
    tol = s.adaptive_rho_tolerance;
    e = compute_rho_estimate(sv);
    sym_cover("unit");
    is_est(e, rho, a, b, "P15.unit-estimate");
    if (!sym_param("decide", 0)) return;
    rho0 = sv->settings->rho; up = sv->info->rho_updates;
    rc = adapt_rho(sv);
    sym_check(rc == 0, "P15.unit-rc");
    sym_check_eq(sv->info->rho_estimate, e, "P15.unit-info");
    if (e > rho0 * tol || e * tol < rho0) { sym_cover("unit-change"); sym_check_eq(sv->settings->rho, e, "P15.unit-new"); sym_check(sv->info->rho_updates == up + 1, "P15.unit-counted"); }
    else { sym_cover("unit-keep"); sym_check_eq(sv->settings->rho, rho0, "P15.unit-kept"); sym_check(sv->info->rho_updates == up, "P15.unit-not-counted"); }
    return;
  }
  if (mode == 15) {
    F xv[MX], zv[MX], yv[MX], a, b, e; I ok, pass;
    interval = s.adaptive_rho_interval;
    if (!interval && s.adaptive_rho == OSQP_ADAPTIVE_RHO_UPDATE_ITERATIONS) interval = s.check_termination ? 4 * s.check_termination : 100;
    if (!interval && s.adaptive_rho == OSQP_ADAPTIVE_RHO_UPDATE_KKT_ERROR) interval = 1;
    rho0 = s.rho; last_kkt = 1e30;
    if (sym_param("ws", 0)) { xv[0] = symd("x0", -1, -1); yv[0] = symd("y0", -1, -1); osqp_warm_start(sv, xv, yv); }
    for (pass = 0; pass < sym_param("solves", 1); pass++) {
      start();
      rc = osqp_solve(sv);
      insolve = 0;
      sym_check(rc == 0, "P15.rc");
      st = sv->info->status_val;
      sym_observe_int("status", st); sym_observe_int("updates", sv->info->rho_updates);
      sym_check(sv->info->rho_updates == nadapt, "P15.count");
      sym_check_eq(sv->settings->rho, rho0, "P15.final-rho");
      if (s.adaptive_rho == OSQP_ADAPTIVE_RHO_UPDATE_DISABLED) sym_check(nadapt == 0, "P15.disabled");
      if (!(st == OSQP_SOLVED || st == OSQP_SOLVED_INACCURATE || st == OSQP_MAX_ITER_REACHED)) break;
      if (st != OSQP_SOLVED && last_ad != k && due(k)) missed(sv->work->x, sv->work->z, sv->work->y);
      getv(sv->work->x, 0, n, xv); getv(sv->work->z, 0, m, zv); getv(sv->work->y, 0, m, yv);
      ok = ratio(xv, zv, yv, &a, &b);
      e = sv->info->rho_estimate;
      if (ok) { sym_cover("estimate"); is_est(e, rho0, a, b, "P15.estimate"); }
    }
    return;
  }
}
