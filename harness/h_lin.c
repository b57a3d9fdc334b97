/* Vector and matrix kernels against their mathematical definition (P25) */
#include "internal.h"
#include "csc_math.h"
#include "csc_utils.h"
#include "algebra_impl.h"
#define L 3
static OSQPVectorf *V[4];
static F v0[4][L + 1];
static I len;
static OSQPVectorf* mkv(I k) {
  I i; char b[3]; OSQPVectorf* v = OSQPVectorf_malloc(len);
  b[0] = 'v'; b[1] = (char)('0' + k); b[2] = 0;
  for (i = 0; i < len; i++) v0[k][i] = symd(b, i, -1);
  putv(v, v0[k], len);
  return v;
}
static F get(const OSQPVectorf* v, I i) { return OSQPVectorf_data(v)[i]; }
static void same(const OSQPVectorf* v, I k, const char* lab) { I i; for (i = 0; i < len; i++) chk_eq(get(v, i), v0[k][i], lab, i, -1); }
/* operand k of an operation whose result is V[0]: al = 1 aliases operand 1 with the result, 2 operand 2, 3 both */
static OSQPVectorf* opnd(I k, I al) { return (k == 1 && (al & 1)) || (k == 2 && (al & 2)) ? V[0] : V[k]; }
static const F* val(I k, I al) { return (k == 1 && (al & 1)) || (k == 2 && (al & 2)) ? v0[0] : v0[k]; }

static void vec_binary(I op, I al) {
  I i; F s1 = 0, s2 = 0; const F *a = val(1, al), *b = val(2, al); OSQPVectorf *A = opnd(1, al), *B = opnd(2, al), *X = V[0];
  F r[L + 1];
  switch (op) {
    case 0: OSQPVectorf_plus(X, A, B); for (i = 0; i < len; i++) r[i] = a[i] + b[i]; break;
    case 1: OSQPVectorf_minus(X, A, B); for (i = 0; i < len; i++) r[i] = a[i] - b[i]; break;
    case 2: OSQPVectorf_ew_prod(X, A, B); for (i = 0; i < len; i++) r[i] = a[i] * b[i]; break;
    case 3: OSQPVectorf_ew_max_vec(X, A, B); for (i = 0; i < len; i++) r[i] = fmax_(a[i], b[i]); break;
    case 4: OSQPVectorf_ew_min_vec(X, A, B); for (i = 0; i < len; i++) r[i] = fmin_(a[i], b[i]); break;
    case 5: s1 = sym_double("s1"); s2 = sym_double("s2"); OSQPVectorf_add_scaled(X, s1, A, s2, B); for (i = 0; i < len; i++) r[i] = s1 * a[i] + s2 * b[i]; break;
    case 6: s2 = sym_double("s2"); OSQPVectorf_add_scaled(X, 1.0, A, s2, B); for (i = 0; i < len; i++) r[i] = a[i] + s2 * b[i]; break;
    case 7: s1 = sym_double("s1"); s2 = sym_double("s2"); OSQPVectorf_add_scaled3(X, s1, A, s2, B, -2.5, V[3]); for (i = 0; i < len; i++) r[i] = s1 * a[i] + s2 * b[i] - 2.5 * v0[3][i]; break;
    case 8: s1 = sym_double("s1"); s2 = sym_double("s2"); OSQPVectorf_add_scaled3(X, 1.0, A, s1, B, s2, V[3]); for (i = 0; i < len; i++) r[i] = a[i] + s1 * b[i] + s2 * v0[3][i]; break;
    case 9: OSQPVectorf_ew_bound_vec(X, A, B, V[3]); for (i = 0; i < len; i++) { sym_assume(b[i] <= v0[3][i]); r[i] = a[i] < b[i] ? b[i] : a[i] > v0[3][i] ? v0[3][i] : a[i]; } break;
    case 10: s1 = sym_double("s1"); s2 = sym_double("s2"); OSQPVectorf_set_scalar_if_lt(X, A, s1, s2); for (i = 0; i < len; i++) r[i] = a[i] < s1 ? s2 : a[i]; break;
    case 11: s1 = sym_double("s1"); s2 = sym_double("s2"); OSQPVectorf_set_scalar_if_gt(X, A, s1, s2); for (i = 0; i < len; i++) r[i] = a[i] > s1 ? s2 : a[i]; break;
    case 12: for (i = 0; i < len; i++) sym_assume(a[i] > 1e-6); OSQPVectorf_ew_reciprocal(X, A); for (i = 0; i < len; i++) { chk_eq(get(X, i) * a[i], 1.0, "P25.reciprocal", i, -1); } return;
    case 13: OSQPVectorf_copy(X, A); for (i = 0; i < len; i++) r[i] = a[i]; break;
  }
  { char lab[24]; nm(lab, "P25.op", op, al); for (i = 0; i < len; i++) { char l2[28]; nm(l2, lab, i, -1); sym_check_eq(get(X, i), r[i], l2); } }
  if (!(al & 1)) same(V[1], 1, "P25.operand1-kept");
  if (!(al & 2)) same(V[2], 2, "P25.operand2-kept");
  same(V[3], 3, "P25.operand3-kept");
}
static void vec_unary(I op) {
  I i, r, e, t[L + 1]; F s, s2, s3, x, y; OSQPVectorf *w; OSQPVectori* tv; F raw[L + 2];
  switch (op) {
    case 0: s = sym_double("s"); OSQPVectorf_set_scalar(V[0], s); for (i = 0; i < len; i++) chk_eq(get(V[0], i), s, "P25.set_scalar", i, -1); break;
    case 1: s = sym_double("s"); OSQPVectorf_mult_scalar(V[0], s); for (i = 0; i < len; i++) chk_eq(get(V[0], i), s * v0[0][i], "P25.mult_scalar", i, -1); break;
    case 2: s = sym_pos("s"); OSQPVectorf_round_to_zero(V[0], s); for (i = 0; i < len; i++) chk_eq(get(V[0], i), fabs_(v0[0][i]) < s ? 0.0 : v0[0][i], "P25.round_to_zero", i, -1); break;
    case 3:
      tv = OSQPVectori_malloc(len);
      for (i = 0; i < len; i++) { char a[8]; nm(a, "t", i, -1); t[i] = sym_int(a, -5, 5); }
      OSQPVectori_from_raw(tv, t);
      s = sym_double("s"); s2 = sym_double("s2"); s3 = sym_double("s3");
      OSQPVectorf_set_scalar_conditional(V[0], tv, s, s2, s3);
      for (i = 0; i < len; i++) chk_eq(get(V[0], i), t[i] < 0 ? s : t[i] > 0 ? s3 : s2, "P25.set_scalar_conditional", i, -1);
      OSQPVectori_free(tv);
      break;
    case 4: x = OSQPVectorf_norm_inf(V[0]); sym_check_eq(x, ninf(v0[0], len), "P25.norm_inf"); break;
    case 5: x = OSQPVectorf_norm_1(V[0]); y = 0.0; for (i = 0; i < len; i++) y += fabs_(v0[0][i]); sym_check_eq(x, y, "P25.norm_1"); break;
    case 6: x = OSQPVectorf_scaled_norm_inf(V[0], V[1]); y = 0.0; for (i = 0; i < len; i++) y = fmax_(y, fabs_(v0[0][i] * v0[1][i])); sym_check_eq(x, y, "P25.scaled_norm_inf"); break;
    case 7: x = OSQPVectorf_norm_inf_diff(V[0], V[1]); y = 0.0; for (i = 0; i < len; i++) y = fmax_(y, fabs_(v0[0][i] - v0[1][i])); sym_check_eq(x, y, "P25.norm_inf_diff"); break;
    case 8: sym_check_eq(OSQPVectorf_dot_prod(V[0], V[1]), dot(v0[0], v0[1], len), "P25.dot_prod"); break;
    case 9: y = 0.0; for (i = 0; i < len; i++) y += v0[0][i] * fmax_(v0[1][i], 0.0); sym_check_eq(OSQPVectorf_dot_prod_signed(V[0], V[1], 1), y, "P25.dot_positive"); break;
    case 10: y = 0.0; for (i = 0; i < len; i++) y += v0[0][i] * fmin_(v0[1][i], 0.0); sym_check_eq(OSQPVectorf_dot_prod_signed(V[0], V[1], -1), y, "P25.dot_negative"); break;
    case 11: sym_check_eq(OSQPVectorf_dot_prod_signed(V[0], V[1], 0), dot(v0[0], v0[1], len), "P25.dot_any"); break;
    case 12: r = OSQPVectorf_all_leq(V[0], V[1]); e = 1; for (i = 0; i < len; i++) if (v0[0][i] > v0[1][i]) e = 0; sym_check((r != 0) == e, "P25.all_leq"); break;
    case 13: case 14:
      for (i = 0; i < len; i++) sym_assume(v0[1][i] <= v0[2][i]);
      s = sym_pos("inf"); s2 = sym_pos("tol");
      if (op == 13) {
        OSQPVectorf_project_polar_reccone(V[0], V[1], V[2], s);
        for (i = 0; i < len; i++) {
          I ul = v0[2][i] > s, ll = v0[1][i] < -s; F y_ = v0[0][i], p = ul ? (ll ? 0.0 : fmin_(y_, 0.0)) : ll ? fmax_(y_, 0.0) : y_;
          chk_eq(get(V[0], i), p, "P25.polar_reccone", i, -1);
        }
      }
      else {
        e = 1;
        for (i = 0; i < len; i++) { if (v0[2][i] < s && v0[0][i] > s2) e = 0; if (v0[1][i] > -s && v0[0][i] < -s2) e = 0; }
        sym_check((OSQPVectorf_in_reccone(V[0], V[1], V[2], s, s2) != 0) == e, "P25.in_reccone");
      }
      break;
    case 15:
      tv = OSQPVectori_calloc(len);
      for (i = 0; i < len; i++) { char a[8]; nm(a, "t", i, -1); t[i] = sym_int(a, -1, 1); }
      OSQPVectori_from_raw(tv, t);
      for (i = 0; i < len; i++) sym_assume(v0[1][i] <= v0[2][i]);
      s = sym_pos("inf"); s2 = sym_pos("tol");
      r = OSQPVectorf_ew_bounds_type(tv, V[1], V[2], s2, s);
      e = 0;
      { I o[L + 1]; OSQPVectori_to_raw(o, tv);
        for (i = 0; i < len; i++) {
          I k = v0[1][i] < -s && v0[2][i] > s ? -1 : v0[2][i] - v0[1][i] < s2 ? 1 : 0;
          if (k != t[i]) e = 1;
          sym_check(o[i] == k, "P25.bounds_type");
        } }
      sym_check((r != 0) == e, "P25.bounds_type-changed");
      OSQPVectori_free(tv);
      break;
    case 16: s = sym_pos("tol"); e = 1; for (i = 0; i < len; i++) if (fabs_(v0[0][i] - v0[1][i]) > s) e = 0;
      sym_check((OSQPVectorf_is_eq(V[0], V[1], s) != 0) == e, "P25.is_eq");
      w = OSQPVectorf_calloc(len + 1); sym_check(!OSQPVectorf_is_eq(V[0], w, s), "P25.is_eq-length"); OSQPVectorf_free(w);
      break;
    case 17:
      w = OSQPVectorf_copy_new(V[0]); sym_check(w && OSQPVectorf_length(w) == len, "P25.copy_new"); same(w, 0, "P25.copy_new-values"); OSQPVectorf_free(w);
      w = OSQPVectorf_new(v0[1], len); sym_check(w && OSQPVectorf_length(w) == len, "P25.new"); same(w, 1, "P25.new-values"); OSQPVectorf_free(w);
      w = OSQPVectorf_calloc(len); for (i = 0; i < len; i++) chk_eq(get(w, i), 0.0, "P25.calloc", i, -1); OSQPVectorf_free(w);
      OSQPVectorf_from_raw(V[0], v0[2]); same(V[0], 2, "P25.from_raw");
      raw[len] = 77.0; OSQPVectorf_to_raw(raw, V[1]); for (i = 0; i < len; i++) chk_eq(raw[i], v0[1][i], "P25.to_raw", i, -1); sym_check_eq(raw[len], 77.0, "P25.to_raw-end");
      if (len == 3) {
        w = OSQPVectorf_view(V[1], 1, 2); sym_check(OSQPVectorf_length(w) == 2, "P25.view"); chk_eq(get(w, 0), v0[1][1], "P25.view-values", 0, -1); chk_eq(get(w, 1), v0[1][2], "P25.view-values", 1, -1);
        OSQPVectorf_view_update(w, V[2], 0, 1); sym_check(OSQPVectorf_length(w) == 1, "P25.view_update"); chk_eq(get(w, 0), v0[2][0], "P25.view_update-values", 0, -1);
        OSQPVectorf_set_scalar(w, 5.0); chk_eq(get(V[2], 0), 5.0, "P25.view-writes", 0, -1); chk_eq(get(V[2], 1), v0[2][1], "P25.view-writes", 1, -1);
        OSQPVectorf_view_free(w);
        v0[2][0] = 5.0;
      }
      break;
    case 18: for (i = 0; i < len; i++) sym_assume(v0[0][i] >= 0.0); OSQPVectorf_ew_sqrt(V[0]);
      for (i = 0; i < len; i++) { sym_check(get(V[0], i) >= 0.0, "P25.sqrt-sign"); chk_eq(get(V[0], i) * get(V[0], i), v0[0][i], "P25.sqrt", i, -1); }
      break;
  }
  if (op >= 4 && op != 13 && op != 17 && op != 18) same(V[0], 0, "P25.unchanged0");
  if (op != 17) { same(V[1], 1, "P25.unchanged1"); same(V[2], 2, "P25.unchanged2"); }
}
/* ---- matrices ------------------------------------------------------------------------------------------------- */
static Mat M;
static OSQPMatrix* Q;
static I mm, nn, triu;
static void dense(const OSQPMatrix* S, F d[MX][MX]) { /* entries as stored */
  I j, k; const OSQPCscMatrix* c = S->csc; I i;
  for (i = 0; i < MX; i++) for (j = 0; j < MX; j++) d[i][j] = 0.0;
  for (j = 0; j < c->n; j++) for (k = c->p[j]; k < c->p[j + 1]; k++) d[c->i[k]][j] = c->x[k];
}
static void cmp(const OSQPMatrix* S, F e[MX][MX], const char* lab) {
  F d[MX][MX]; I i, j;
  dense(S, d);
  for (j = 0; j < nn; j++) for (i = 0; i < mm; i++) if (!triu || i <= j) { char a[48]; nm(a, lab, i, j); sym_check_eq(d[i][j], e[i][j], a); }
}
static void mat(I op) {
  I i, j, k; F al, be, x[MX], y[MX], o[MX], r[MX], e[MX][MX]; OSQPVectorf *X, *Y; I tr = 0, which = 0;
  for (i = 0; i < MX; i++) for (j = 0; j < MX; j++) e[i][j] = M.d[i][j];
  switch (op) {
    case 0: case 1: case 2: case 3: case 4: case 5: case 6: case 7: /* products: op%4 picks the constants, op/4 the transpose */
      tr = op / 4; which = op % 4;
      al = which == 1 ? 1.0 : which == 2 ? -1.0 : sym_double("alpha");
      be = which == 1 ? 0.0 : which == 2 ? 1.0 : which == 3 ? -1.0 : sym_double("beta");
      for (i = 0; i < (tr ? mm : nn); i++) x[i] = symd("x", i, -1);
      for (i = 0; i < (tr ? nn : mm); i++) y[i] = symd("y", i, -1);
      X = OSQPVectorf_malloc(tr ? mm : nn); Y = OSQPVectorf_malloc(tr ? nn : mm);
      putv(X, x, tr ? mm : nn); putv(Y, y, tr ? nn : mm);
      if (tr) { OSQPMatrix_Atxpy(Q, X, Y, al, be); mulTv(&M, mm, nn, x, r); } else { OSQPMatrix_Axpy(Q, X, Y, al, be); mulv(&M, mm, nn, x, r); }
      getv(Y, 0, tr ? nn : mm, o);
      for (i = 0; i < (tr ? nn : mm); i++) { char lab[32]; nm(lab, tr ? "P25.Atxpy" : "P25.Axpy", which, i); sym_check_eq(o[i], al * r[i] + be * y[i], lab); }
      /* the plain sparse routines */
      for (i = 0; i < (tr ? nn : mm); i++) o[i] = y[i];
      if (triu) csc_Axpy_sym_triu(Q->csc, x, o, al, be); else if (tr) csc_Atxpy(Q->csc, x, o, al, be); else csc_Axpy(Q->csc, x, o, al, be);
      for (i = 0; i < (tr ? nn : mm); i++) { char lab[32]; nm(lab, tr ? "P25.csc_Atxpy" : "P25.csc_Axpy", which, i); sym_check_eq(o[i], al * r[i] + be * y[i], lab); }
      getv(X, 0, tr ? mm : nn, o); for (i = 0; i < (tr ? mm : nn); i++) chk_eq(o[i], x[i], "P25.x-kept", i, -1);
      OSQPVectorf_free(X); OSQPVectorf_free(Y);
      break;
    case 8: al = sym_double("alpha"); OSQPMatrix_mult_scalar(Q, al); for (i = 0; i < mm; i++) for (j = 0; j < nn; j++) e[i][j] *= al; break;
    case 9: X = OSQPVectorf_malloc(mm); for (i = 0; i < mm; i++) x[i] = symd("x", i, -1); putv(X, x, mm); OSQPMatrix_lmult_diag(Q, X); for (i = 0; i < mm; i++) for (j = 0; j < nn; j++) e[i][j] *= x[i]; OSQPVectorf_free(X); break;
    case 10: X = OSQPVectorf_malloc(nn); for (i = 0; i < nn; i++) x[i] = symd("x", i, -1); putv(X, x, nn); OSQPMatrix_rmult_diag(Q, X); for (i = 0; i < mm; i++) for (j = 0; j < nn; j++) e[i][j] *= x[j]; OSQPVectorf_free(X); break;
    case 11:
      if (triu) break;
      X = OSQPVectorf_malloc(mm); Y = OSQPVectorf_malloc(nn); for (i = 0; i < mm; i++) x[i] = symd("x", i, -1); for (i = 0; i < nn; i++) y[i] = symd("y", i, -1); putv(X, x, mm); putv(Y, y, nn);
      OSQPMatrix_AtDA_extract_diag(Q, X, Y); getv(Y, 0, nn, o);
      for (j = 0; j < nn; j++) { F s = 0.0; for (i = 0; i < mm; i++) s += M.d[i][j] * x[i] * M.d[i][j]; chk_eq(o[j], s, "P25.AtDA", j, -1); }
      OSQPVectorf_free(X); OSQPVectorf_free(Y);
      break;
    case 12: case 13: case 14:
      k = op == 14 ? mm : nn;
      if (op == 12 && mm != nn) break;
      Y = OSQPVectorf_malloc(k); for (i = 0; i < k; i++) y[i] = symd("y", i, -1); putv(Y, y, k);
      if (op == 12) OSQPMatrix_extract_diag(Q, Y); else if (op == 13) OSQPMatrix_col_norm_inf(Q, Y); else OSQPMatrix_row_norm_inf(Q, Y);
      getv(Y, 0, k, o);
      for (i = 0; i < k; i++) {
        F s = 0.0;
        if (op == 12) s = M.d[i][i];
        else if (op == 13) { for (j = 0; j < mm; j++) if (!triu || j <= i) s = fmax_(s, fabs_(M.d[j][i])); }
        else for (j = 0; j < nn; j++) s = fmax_(s, fabs_(M.d[i][j]));
        chk_eq(o[i], s, op == 12 ? "P25.diag" : op == 13 ? "P25.col_norm" : "P25.row_norm", i, -1);
      }
      OSQPVectorf_free(Y);
      break;
    case 15: case 16: { /* new values, all or by index (any order) */
      F nv[MX * MX]; I ix[MX * MX], c = 0; char b[12];
      for (k = 0; k < M.nnz; k++) nv[k] = symd("nv", k, -1);
      if (op == 15) { OSQPMatrix_update_values(Q, nv, 0, M.nnz); for (k = 0; k < M.nnz; k++) x[0] = 0; }
      else {
        for (k = M.nnz - 1; k >= 0; k--) { nm(b, "use", k, -1); if (sym_split(sym_int(b, 0, 1))) { ix[c] = k; nv[c] = symd("nw", k, -1); c++; } }
        OSQPMatrix_update_values(Q, nv, ix, c);
      }
      for (j = 0; j < nn; j++) for (k = M.p[j]; k < M.p[j + 1]; k++) {
        F v = M.x[k]; I t;
        if (op == 15) v = nv[k]; else for (t = 0; t < c; t++) if (ix[t] == k) v = nv[t];
        e[M.i[k]][j] = v;
      }
      break; }
    case 17: {
      OSQPMatrix* S; OSQPVectori* rv; I rows[MX], c = 0; char b[12];
      if (triu) break;
      for (i = 0; i < mm; i++) { nm(b, "row", i, -1); rows[i] = sym_split(sym_int(b, 0, 1)); }
      rv = OSQPVectori_new(rows, mm);
      S = OSQPMatrix_submatrix_byrows(Q, rv);
      sym_check(S != 0, "P25.submatrix");
      if (!S) break;
      for (i = 0; i < mm; i++) if (rows[i]) { for (j = 0; j < nn; j++) { F d[MX][MX]; dense(S, d); chk_eq(d[c][j], M.d[i][j], "P25.submatrix-entry", i, j); } c++; }
      sym_check(OSQPMatrix_get_m(S) == c && OSQPMatrix_get_n(S) == nn, "P25.submatrix-size");
      for (j = 0, k = 0; j < nn; j++) for (i = 0; i < mm; i++) if (rows[i] && (M.p[j + 1] > M.p[j])) { I q; for (q = M.p[j]; q < M.p[j + 1]; q++) if (M.i[q] == i) k++; }
      sym_check(OSQPMatrix_get_nz(S) == k, "P25.submatrix-nnz");
      /* it multiplies as the selected rows */
      for (j = 0; j < nn; j++) x[j] = symd("x", j, -1);
      X = OSQPVectorf_new(x, nn); Y = OSQPVectorf_calloc(c);
      OSQPVectorf_set_scalar(Y, 3.0);
      OSQPMatrix_Axpy(S, X, Y, 1.0, 0.0);
      for (i = 0, k = 0; i < mm; i++) if (rows[i]) { F s = 0.0; for (j = 0; j < nn; j++) s += M.d[i][j] * x[j]; chk_eq(OSQPVectorf_data(Y)[k], s, "P25.submatrix-product", i, -1); k++; }
      OSQPVectorf_free(X); OSQPVectorf_free(Y);
      OSQPMatrix_free(S); OSQPVectori_free(rv);
      break; }
    case 18:
      sym_check(OSQPMatrix_get_m(Q) == mm && OSQPMatrix_get_n(Q) == nn && OSQPMatrix_get_nz(Q) == M.nnz, "P25.get");
      for (k = 0; k < M.nnz; k++) { sym_check(OSQPMatrix_get_i(Q)[k] == M.i[k], "P25.get_i"); chk_eq(OSQPMatrix_get_x(Q)[k], M.x[k], "P25.get_x", k, -1); }
      for (k = 0; k <= nn; k++) sym_check(OSQPMatrix_get_p(Q)[k] == M.p[k], "P25.get_p");
      { OSQPMatrix* S = OSQPMatrix_new_from_csc(&M.M, triu); sym_check(OSQPMatrix_is_eq(Q, S, 0.0) == 1, "P25.is_eq-same");
        if (M.nnz) { F d = sym_double("d"), t = sym_pos("tol"); OSQPMatrix_get_x(S)[M.nnz - 1] = M.x[M.nnz - 1] + d; sym_check((OSQPMatrix_is_eq(Q, S, t) != 0) == (fabs_(d) <= t), "P25.is_eq-close"); }
        OSQPMatrix_free(S); }
      break;
  }
  cmp(Q, e, op < 8 || op == 11 || op > 16 || (op > 11 && op < 15) ? "P25.matrix-kept" : "P25.matrix");
  for (k = 0; k < M.nnz; k++) chk_eq(M.M.x[k], M.x[k], "P25.source-kept", k, -1);
  sym_check(Q->csc->p[nn] == M.nnz, "P25.nnz-kept");
}
void harness(void) {
  I op = sym_split(sym_int("op", sym_param("lo", 0), sym_param("hi", 0))), k, live;
  if (sym_param("mat", 0)) {
    long long mask;
    mm = sym_param("m", 2); nn = sym_param("n", 2); triu = sym_param("triu", 0);
    mask = split_mask("mask", mm, nn, sym_param("triu", 0));
    if (triu) { I i, j; for (j = 0; j < nn; j++) for (i = j + 1; i < mm; i++) sym_assume(!((mask >> (i + j * mm)) & 1)); }
    mk_mat(&M, mm, nn, mask, "a", triu);
    live = sym_heap_live();
    Q = OSQPMatrix_new_from_csc(&M.M, triu);
    sym_check(Q != 0, "P25.new_from_csc");
    if (!Q) return;
    sym_cover("matrix");
    mat(op);
    OSQPMatrix_free(Q);
    sym_check(sym_heap_live() == live, "P25.leak");
    return;
  }
  len = sym_split(sym_int("len", 0, L));
  live = sym_heap_live();
  for (k = 0; k < 4; k++) V[k] = mkv(k);
  sym_cover("vector");
  if (sym_param("unary", 0)) vec_unary(op); else vec_binary(op, sym_split(sym_int("alias", 0, 3)));
  for (k = 0; k < 4; k++) OSQPVectorf_free(V[k]);
  sym_check(sym_heap_live() == live, "P25.leak");
  return;
}
