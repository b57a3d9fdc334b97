#ifndef HCOMMON_H
#define HCOMMON_H
#include "osqp.h"
#include "sym.h"
#include "hooks.h"
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <math.h>

#define MX 6
typedef OSQPInt   I;
typedef OSQPFloat F;

static void nm(char* b, const char* base, I i, I j) {
  I k = 0;
  while (base[k]) { b[k] = base[k]; k++; }
  if (i >= 0) { b[k++] = '_'; if (i > 9) b[k++] = (char)('0' + i / 10); b[k++] = (char)('0' + i % 10); }
  if (j >= 0) { b[k++] = '_'; if (j > 9) b[k++] = (char)('0' + j / 10); b[k++] = (char)('0' + j % 10); }
  b[k] = 0;
}
static F symd(const char* base, I i, I j) { char b[32]; nm(b, base, i, j); return sym_double(b); }
static void chk_eq(F a, F b, const char* base, I i, I j) { char s[64]; nm(s, base, i, j); sym_check_eq(a, b, s); }
static void obs(const char* base, I i, F v) { char s[64]; nm(s, base, i, -1); sym_observe(s, v); }

static F fabs_(F x) { return x < 0 ? -x : x; }
static F fmax_(F a, F b) { return a > b ? a : b; }
static F fmin_(F a, F b) { return a < b ? a : b; }

/* CSC matrix from a sparsity mask (column-major bit i + j*m) with entries named base_i_j */
typedef struct { OSQPCscMatrix M; I p[MX + 2]; I i[MX * MX + 1]; F x[MX * MX + 1]; F d[MX][MX]; I nnz; } Mat;
static void mk_mat(Mat* M, I m, I n, long long mask, const char* base, I triu) {
  I i, j, k = 0;
  for (i = 0; i < MX; i++) for (j = 0; j < MX; j++) M->d[i][j] = 0.0;
  for (j = 0; j < n; j++) {
    M->p[j] = k;
    for (i = 0; i < m; i++) {
      if (triu && i > j) continue;
      if ((mask >> (i + j * m)) & 1) {
        F v = symd(base, i, j);
        M->i[k] = i; M->x[k] = v; k++;
        M->d[i][j] = v;
        if (triu) M->d[j][i] = v;
      }
    }
  }
  M->p[n] = k;
  M->nnz = k;
  M->M.m = m; M->M.n = n; M->M.p = M->p; M->M.i = M->i; M->M.x = M->x; M->M.nzmax = k; M->M.nz = -1; M->M.owned = 0;
}
static void mulv(const Mat* M, I m, I n, const F* x, F* y) { /* y = M x (dense view) */
  I i, j;
  for (i = 0; i < m; i++) { y[i] = 0.0; for (j = 0; j < n; j++) y[i] += M->d[i][j] * x[j]; }
}
static void mulTv(const Mat* M, I m, I n, const F* x, F* y) {
  I i, j;
  for (j = 0; j < n; j++) { y[j] = 0.0; for (i = 0; i < m; i++) y[j] += M->d[i][j] * x[i]; }
}
static F ninf(const F* x, I n) { I i; F v = 0.0; for (i = 0; i < n; i++) v = fmax_(v, fabs_(x[i])); return v; }
static F dot(const F* x, const F* y, I n) { I i; F v = 0.0; for (i = 0; i < n; i++) v += x[i] * y[i]; return v; }

/* any sparsity mask of an m x n matrix (upper triangular if triu), as a concrete value on each path */
static long long split_mask(const char* base, I m, I n, I triu) {
  long long mask = 0; I i, j; char b[32];
  for (j = 0; j < n; j++) for (i = 0; i < m; i++) {
    if (triu && i > j) continue;
    nm(b, base, i, j);
    if (sym_split(sym_int(b, 0, 1))) mask |= 1LL << (i + j * m);
  }
  return mask;
}
/* bounds of constraint i by type: 0 two-sided, 1 lower only, 2 upper only, 3 equality, 4 free,
   5 anything with l <= u; finite values are symbolic and |.| < 1e20 so that the type is what it says */
static F bnd(const char* base, I i) {
  F v = symd(base, i, -1), lim = sym_paramd("blim", 1e20);
  sym_assume(v < lim); sym_assume(v > -lim);
  return v;
}
static void mk_bounds(F* l, F* u, I m, const char* lb, const char* ub, long long types) {
  I i;
  for (i = 0; i < m; i++) {
    I t = types % 10;
    types /= 10;
    if (t == 0) { l[i] = bnd(lb, i); u[i] = bnd(ub, i); sym_assume(u[i] - l[i] > 1e-3); }
    else if (t == 1) { l[i] = bnd(lb, i); u[i] = OSQP_INFTY; }
    else if (t == 2) { l[i] = -OSQP_INFTY; u[i] = bnd(ub, i); }
    else if (t == 3) { l[i] = bnd(lb, i); u[i] = l[i]; }
    else if (t == 4) { l[i] = -OSQP_INFTY; u[i] = OSQP_INFTY; }
    else { l[i] = symd(lb, i, -1); u[i] = symd(ub, i, -1); sym_assume(l[i] <= u[i]); }
  }
}
/* all settings from parameters, with quiet and deterministic defaults */
static void mk_settings(OSQPSettings* s) {
  osqp_set_default_settings(s);
  s->verbose            = sym_param("verbose", 0);
  s->linsys_solver      = sym_param("linsys", 1) == 1 ? OSQP_DIRECT_SOLVER : OSQP_INDIRECT_SOLVER;
  s->scaling            = sym_param("scaling", 0);
  s->adaptive_rho       = sym_param("adaptive_rho", 0);
  s->adaptive_rho_interval = sym_param("ar_interval", 0);
  s->adaptive_rho_fraction = sym_paramd("ar_fraction", 0.4);
  s->adaptive_rho_tolerance = sym_paramd("ar_tolerance", 5.0);
  s->max_iter           = sym_param("max_iter", 1);
  s->check_termination  = sym_param("check_termination", 1);
  s->rho_is_vec         = sym_param("rho_is_vec", 1);
  s->rho                = sym_paramd("rho", 0.5);
  s->sigma              = sym_paramd("sigma", 0.25);
  s->alpha              = sym_paramd("alpha", 1.5);
  s->warm_starting      = sym_param("warm_starting", 1);
  s->polishing          = sym_param("polishing", 0);
  s->scaled_termination = sym_param("scaled_termination", 0);
  s->check_dualgap      = sym_param("check_dualgap", 1);
  s->eps_abs            = sym_paramd("eps_abs", 1e-3);
  s->eps_rel            = sym_paramd("eps_rel", 1e-3);
  s->eps_prim_inf       = sym_paramd("eps_prim_inf", 1e-4);
  s->eps_dual_inf       = sym_paramd("eps_dual_inf", 1e-4);
  s->delta              = sym_paramd("delta", 1e-6);
  s->polish_refine_iter = sym_param("polish_refine_iter", 3);
  s->time_limit         = sym_paramd("time_limit", 1e10);
  s->cg_max_iter        = sym_param("cg_max_iter", 20);
  s->cg_tol_reduction   = sym_param("cg_tol_reduction", 10);
  s->cg_tol_fraction    = sym_paramd("cg_tol_fraction", 0.15);
  s->cg_precond         = sym_param("cg_precond", 1) ? OSQP_DIAGONAL_PRECONDITIONER : OSQP_NO_PRECONDITIONER;
}
#endif
