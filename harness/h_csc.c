/* KKT assembly (P24) and sparse-matrix conversions (P26) */
#include "internal.h"
#include "csc_utils.h"
#include "kkt.h"
#include "algebra_impl.h"
OSQPInt csc_cumsum(OSQPInt* p, OSQPInt* c, OSQPInt n);
static I is_valid(const OSQPCscMatrix* C, I m, I n, I nnz, I sorted) {
  I j, k;
  if (!C || C->m != m || C->n != n || C->p[0] != 0) return 0;
  for (j = 0; j < n; j++) {
    if (C->p[j + 1] < C->p[j]) return 0;
    for (k = C->p[j]; k < C->p[j + 1]; k++) {
      if (C->i[k] < 0 || C->i[k] >= m) return 0;
      if (sorted && k > C->p[j] && C->i[k] <= C->i[k - 1]) return 0;
    }
  }
  return C->p[n] == nnz && C->nzmax >= nnz && C->nz == -1;
}
/* position of entry (i,j), -1 if absent, -2 if there twice */
static I find(const OSQPCscMatrix* C, I i, I j) { I k, r = -1; for (k = C->p[j]; k < C->p[j + 1]; k++) if (C->i[k] == i) r = r == -1 ? k : -2; return r; }
static F entry(const OSQPCscMatrix* C, I i, I j) { I k; F s = 0.0; for (k = C->p[j]; k < C->p[j + 1]; k++) if (C->i[k] == i) s += C->x[k]; return s; }
static void cmpd(const OSQPCscMatrix* C, F d[MX][MX], I m, I n, const char* lab) { I i, j; for (i = 0; i < m; i++) for (j = 0; j < n; j++) { char a[48]; nm(a, lab, i, j); sym_check_eq(entry(C, i, j), d[i][j], a); } }

/* ---- P24: the upper triangle of [P + p1 I, A'; A, -diag(p2)], by columns (0) or by rows (1) ------------------------ */
static Mat P, A;
static I n, m, fmt;
static I Pt[16], At[16], Rt[8];
static F p1, p2[8], p2s, dP[16], dA[16];
static I vec;
static void kkt_check(const OSQPCscMatrix* K, const char* lab) {
  I i, j, r; F e;
  for (r = 0; r < n + m; r++) for (j = r; j < n + m; j++) { /* (r, j) of the upper triangle */
    char a[48]; I I0 = fmt ? j : r, J0 = fmt ? r : j;
    if (j < n) e = P.d[r][j] + (r == j ? p1 : 0.0);
    else if (r < n) e = A.d[j - n][r];
    else e = r == j ? -(vec ? p2[r - n] : p2s) : 0.0;
    nm(a, lab, r, j);
    sym_check_eq(entry(K, I0, J0), e, a);
  }
  for (i = 0; i < n + m; i++) sym_check(find(K, i, i) >= 0, "P24.diagonal-stored");
}
static void p24(void) {
  long long pm, am; I i, j, k, nnz, maps, live; OSQPCscMatrix *K, *K2; I pt2[16], at2[16], rt2[8]; char b[16];
  n = sym_param("n", 2); m = sym_param("m", 1);
  pm = split_mask("pm", n, n, 1);
  for (j = 0; j < n; j++) for (i = j + 1; i < n; i++) sym_assume(!((pm >> (i + j * n)) & 1));
  am = split_mask("am", m, n, 0);
  fmt = sym_split(sym_int("fmt", 0, 1));
  maps = sym_split(sym_int("maps", 0, 1));
  vec = sym_split(sym_int("vec", 0, 1));
  mk_mat(&P, n, n, pm, "P", 1); mk_mat(&A, m, n, am, "A", 0);
  p1 = sym_double("p1"); p2s = sym_double("p2");
  for (i = 0; i < m; i++) p2[i] = symd("p2v", i, -1);
  live = sym_heap_live();
  K = form_KKT(&P.M, &A.M, fmt, p1, vec ? p2 : 0, p2s, maps ? Pt : 0, maps ? At : 0, maps ? Rt : 0);
  sym_check(K != 0, "P24.formed");
  if (!K) return;
  sym_cover("formed");
  nnz = P.nnz + A.nnz + m;
  for (i = 0; i < n; i++) if (!((pm >> (i + i * n)) & 1)) nnz++;
  sym_check(is_valid(K, n + m, n + m, nnz, 1), "P24.sorted");
  for (j = 0; j < n + m; j++) for (k = K->p[j]; k < K->p[j + 1]; k++) sym_check(fmt ? K->i[k] >= j : K->i[k] <= j, "P24.triangular");
  kkt_check(K, "P24.entry");
  for (j = 0; j < n; j++) {
    for (k = P.p[j]; k < P.p[j + 1]; k++) if (maps) sym_check(Pt[k] == (fmt ? find(K, j, P.i[k]) : find(K, P.i[k], j)), "P24.PtoKKT");
    for (k = A.p[j]; k < A.p[j + 1]; k++) if (maps) sym_check(At[k] == (fmt ? find(K, n + A.i[k], j) : find(K, j, n + A.i[k])), "P24.AtoKKT");
  }
  if (!maps) { csc_spfree(K); sym_check(sym_heap_live() == live, "P24.leak"); return; }
  for (i = 0; i < m; i++) sym_check(Rt[i] == find(K, n + i, n + i), "P24.rhotoKKT");
  /* updates: any subset by index (highest first), or all values */
  if (sym_param("upd", 1)) {
    I all = sym_split(sym_int("all", 0, 1)), ix[16], c = 0;
    for (k = 0; k < P.nnz; k++) { F v = symd("Q", k, -1); dP[k] = v; }
    for (k = 0; k < A.nnz; k++) { F v = symd("B", k, -1); dA[k] = v; }
    if (!all) for (k = P.nnz - 1; k >= 0; k--) { nm(b, "up", k, -1); if (sym_split(sym_int(b, 0, 1))) ix[c++] = k; }
    else for (c = 0; c < P.nnz; c++) ix[c] = c;
    for (k = 0; k < c; k++) P.x[ix[k]] = dP[ix[k]];
    update_KKT_P(K, &P.M, all ? 0 : ix, c, Pt, p1, fmt);
    c = 0;
    if (!all) for (k = A.nnz - 1; k >= 0; k--) { nm(b, "ua", k, -1); if (sym_split(sym_int(b, 0, 1))) ix[c++] = k; }
    else for (c = 0; c < A.nnz; c++) ix[c] = c;
    for (k = 0; k < c; k++) A.x[ix[k]] = dA[ix[k]];
    update_KKT_A(K, &A.M, all ? 0 : ix, c, At);
    for (j = 0; j < n; j++) {
      for (k = P.p[j]; k < P.p[j + 1]; k++) P.d[P.i[k]][j] = P.d[j][P.i[k]] = P.x[k];
      for (k = A.p[j]; k < A.p[j + 1]; k++) A.d[A.i[k]][j] = A.x[k];
    }
    kkt_check(K, "P24.updated");
    for (i = 0; i < m; i++) p2[i] = symd("r2v", i, -1);
    p2s = sym_double("r2");
    update_KKT_param2(K, vec ? p2 : 0, p2s, Rt, m);
    kkt_check(K, "P24.param2");
    K2 = form_KKT(&P.M, &A.M, fmt, p1, vec ? p2 : 0, p2s, pt2, at2, rt2);
    for (k = 0; k < K->p[n + m]; k++) { sym_check(K->i[k] == K2->i[k], "P24.same-pattern"); chk_eq(K->x[k], K2->x[k], "P24.as-fresh", k, -1); }
    csc_spfree(K2);
  }
  csc_spfree(K);
  sym_check(sym_heap_live() == live, "P24.leak");
}
/* ---- P26 ----------------------------------------------------------------------------------------------------------- */
static Mat M, M2;
static void p26(I op) {
  I i, j, k, live, mm = sym_param("m", 2), nn = sym_param("n", 2), triu = op == 4 || op == 5 || (op == 7 && 0); long long mask = 0; OSQPCscMatrix *C = 0, *D = 0; F d[MX][MX]; char b[16];
  if (op < 9) {
    mask = split_mask("mask", mm, nn, triu);
    if (triu) for (j = 0; j < nn; j++) for (i = j + 1; i < mm; i++) sym_assume(!((mask >> (i + j * mm)) & 1));
    mk_mat(&M, mm, nn, mask, "a", triu);
  }
  live = sym_heap_live();
  sym_cover("op");
  switch (op) {
    case 0: /* copy, dense view */
      C = csc_copy(&M.M);
      sym_check(is_valid(C, mm, nn, M.nnz, 1), "P26.copy");
      cmpd(C, M.d, mm, nn, "P26.copy-entry");
      { F* q = csc_to_dns(&M.M); if (mm && nn) { sym_check(q != 0, "P26.dense"); for (i = 0; i < mm; i++) for (j = 0; j < nn; j++) chk_eq(q[j * mm + i], M.d[i][j], "P26.dense-entry", i, j); } free(q); }
      break;
    case 1: { /* row selection */
      I rows[MX], c = 0, cnt = 0, r[MX];
      for (i = 0; i < mm; i++) { nm(b, "row", i, -1); rows[i] = sym_split(sym_int(b, 0, 1)); r[i] = c; c += rows[i]; }
      for (k = 0; k < M.nnz; k++) cnt += rows[M.i[k]];
      C = csc_submatrix_byrows(&M.M, rows);
      sym_check(is_valid(C, c, nn, cnt, 1), "P26.rows");
      for (i = 0; i < mm; i++) if (rows[i]) for (j = 0; j < nn; j++) chk_eq(entry(C, r[i], j), M.d[i][j], "P26.rows-entry", i, j);
      break; }
    case 2: { /* diagonal */
      F g[MX]; csc_extract_diag(&M.M, g);
      for (j = 0; j < nn && j < mm; j++) chk_eq(g[j], M.d[j][j], "P26.diag", j, -1);
      for (; j < nn; j++) chk_eq(g[j], 0.0, "P26.diag", j, -1);
      break; }
    case 3: { /* equality up to a tolerance */
      F t = sym_pos("tol"), dv = sym_double("dv");
      long long mask2 = split_mask("mask2", mm, nn, 0);
      I e;
      mk_mat(&M2, mm, nn, mask2, "a", 0);
      for (k = 0; k < M2.nnz; k++) if (k == M2.nnz - 1) M2.x[k] += dv;
      e = mask == mask2 && (M2.nnz == 0 || fabs_(dv) <= t);
      sym_check((csc_is_eq(&M.M, &M2.M, t) != 0) == e, "P26.is_eq");
      M2.M.n = nn + 1; M2.p[nn + 1] = M2.p[nn];
      sym_check(csc_is_eq(&M.M, &M2.M, t) == 0, "P26.is_eq-columns");
      break; }
    case 4: /* full symmetric matrix from its upper triangle */
      if (mm != nn) break;
      { I dg = 0; for (i = 0; i < nn; i++) if ((mask >> (i + i * mm)) & 1) dg++;
        C = triu_to_csc(&M.M); sym_check(is_valid(C, nn, nn, 2 * M.nnz - dg, 0), "P26.symmetric"); }
      cmpd(C, M.d, nn, nn, "P26.symmetric-entry");
      for (i = 0; i < nn; i++) for (j = 0; j < nn; j++) sym_check(find(C, i, j) != -2, "P26.symmetric-twice");
      break;
    case 5: { /* symmetric permutation */
      I p[MX], *pi, map[MX * MX], id = sym_split(sym_int("identity", 0, 1)), vals = sym_split(sym_int("values", 0, 1)), um = sym_split(sym_int("map", 0, 1));
      if (mm != nn) break;
      for (i = 0; i < nn; i++) { nm(b, "perm", i, -1); p[i] = sym_split(sym_int(b, 0, nn - 1)); for (j = 0; j < i; j++) sym_assume(p[i] != p[j]); }
      pi = id ? 0 : csc_pinv(p, nn);
      if (!id) for (i = 0; i < nn; i++) sym_check(pi[p[i]] == i, "P26.pinv");
      sym_check(csc_pinv(0, nn) == 0, "P26.pinv-null");
      if (!vals) { free(pi); break; }
      C = csc_symperm(&M.M, pi, um ? map : 0, 1);
      sym_check(is_valid(C, nn, nn, M.nnz, 0), "P26.symperm");
      for (j = 0; j < nn; j++) for (k = C->p[j]; k < C->p[j + 1]; k++) sym_check(C->i[k] <= j, "P26.symperm-triu");
      for (i = 0; i < nn; i++) for (j = i; j < nn; j++) { I i2 = pi ? pi[i] : i, j2 = pi ? pi[j] : j; chk_eq(entry(C, i2 < j2 ? i2 : j2, i2 < j2 ? j2 : i2), M.d[i][j], "P26.symperm-entry", i, j); }
      if (um) for (j = 0; j < nn; j++) for (k = M.p[j]; k < M.p[j + 1]; k++) { I i2 = pi ? pi[M.i[k]] : M.i[k], j2 = pi ? pi[j] : j; sym_check(map[k] == find(C, i2 < j2 ? i2 : j2, i2 < j2 ? j2 : i2), "P26.symperm-map"); }
      free(pi);
      break; }
    case 6: { /* stacking */
      I m2 = sym_param("m2", 1); long long mask2 = split_mask("mask2", m2, nn, 0);
      mk_mat(&M2, m2, nn, mask2, "b", 0);
      C = vstack(&M.M, &M2.M);
      sym_check(is_valid(C, mm + m2, nn, M.nnz + M2.nnz, 1), "P26.vstack");
      for (j = 0; j < nn; j++) { for (i = 0; i < mm; i++) chk_eq(entry(C, i, j), M.d[i][j], "P26.vstack-top", i, j); for (i = 0; i < m2; i++) chk_eq(entry(C, mm + i, j), M2.d[i][j], "P26.vstack-bottom", i, j); }
      break; }
    case 7: { /* the solver's own matrix holds the caller's matrix */
      OSQPMatrix* S; I extra = sym_split(sym_int("extra", 0, 1));
      M.M.nzmax = M.nnz + extra;        /* room for more entries than there are */
      if (extra) { M.i[M.nnz] = 0; M.x[M.nnz] = 9.0; }
      S = OSQPMatrix_new_from_csc(&M.M, 0);
      sym_check(S != 0, "P26.new");
      if (!S) break;
      sym_check(is_valid(S->csc, mm, nn, M.nnz, 1), "P26.new-structure");
      cmpd(S->csc, M.d, mm, nn, "P26.new-entry");
      C = OSQPMatrix_get_csc(S);
      if (mm && nn) { sym_check(is_valid(C, mm, nn, M.nnz, 1), "P26.get_csc"); if (C && C->m == mm && C->n == nn) cmpd(C, M.d, mm, nn, "P26.get_csc-entry"); }
      OSQPMatrix_free(S);
      break; }
    case 8: /* the public constructor borrows the arrays */
      C = OSQPCscMatrix_new(mm, nn, M.nnz, M.x, M.i, M.p);
      sym_check(C && C->x == M.x && C->i == M.i && C->p == M.p && C->m == mm && C->n == nn && C->nzmax == M.nnz && C->nz == -1, "P26.borrowed");
      cmpd(C, M.d, mm, nn, "P26.borrowed-entry");
      OSQPCscMatrix_free(C); C = 0;
      for (k = 0; k < M.nnz; k++) chk_eq(M.x[k], M.M.x[k], "P26.borrowed-alive", k, -1);
      OSQPCscMatrix_free(0);
      break;
    case 9: { /* triplets, in any order, to columns or rows */
      I csr = sym_split(sym_int("csr", 0, 1)), nz = sym_param("nz", 3), um = sym_split(sym_int("map", 0, 1)), map[16], ti[16], tj[16]; F tx[16]; OSQPCscMatrix T;
      for (i = 0; i < MX; i++) for (j = 0; j < MX; j++) d[i][j] = 0.0;
      for (k = 0; k < nz; k++) {
        nm(b, "ti", k, -1); ti[k] = sym_split(sym_int(b, 0, mm - 1)); nm(b, "tj", k, -1); tj[k] = sym_split(sym_int(b, 0, nn - 1)); tx[k] = symd("tx", k, -1);
        if (csr) d[tj[k]][ti[k]] += tx[k]; else d[ti[k]][tj[k]] += tx[k];
      }
      T.m = mm; T.n = nn; T.nz = nz; T.nzmax = nz; T.i = ti; T.p = tj; T.x = tx; T.owned = 0;
      C = csr ? triplet_to_csr(&T, um ? map : 0) : triplet_to_csc(&T, um ? map : 0);
      sym_check(C && C->p[csr ? mm : nn] == nz && C->p[0] == 0 && C->m == mm && C->n == nn, "P26.triplet");
      if (!C) break;
      if (csr) { C->m = nn; C->n = mm; } /* rows of a CSR matrix read as columns of the transpose */
      sym_check(is_valid(C, C->m, C->n, nz, 0), "P26.triplet-structure");
      cmpd(C, d, C->m, C->n, "P26.triplet-entry");
      if (um) for (k = 0; k < nz; k++) {
        I col = csr ? ti[k] : tj[k], row = csr ? tj[k] : ti[k];
        sym_check(map[k] >= C->p[col] && map[k] < C->p[col + 1] && C->i[map[k]] == row, "P26.triplet-map");
        chk_eq(C->x[map[k]], tx[k], "P26.triplet-map-value", k, -1);
        for (j = 0; j < k; j++) sym_check(map[j] != map[k], "P26.triplet-map-twice");
      }
      break; }
    case 10: { /* diagonal constructors */
      I kind = sym_split(sym_int("kind", 0, 3)), r = sym_split(sym_int("rows", 0, 3)), c = sym_split(sym_int("cols", 0, 3)), mn; F s = sym_double("s"), v[4];
      for (i = 0; i < 4; i++) v[i] = symd("v", i, -1);
      if (kind == 3) r = c;
      mn = kind == 2 ? 0 : r < c ? r : c;
      C = kind == 0 ? OSQPCscMatrix_diag_scalar(r, c, s) : kind == 1 ? OSQPCscMatrix_diag_vec(r, c, v) : kind == 2 ? OSQPCscMatrix_zeros(r, c) : OSQPCscMatrix_identity(c);
      sym_check(is_valid(C, r, c, mn, 1), "P26.diagonal");
      for (i = 0; i < r; i++) for (j = 0; j < c; j++) chk_eq(entry(C, i, j), i != j || kind == 2 ? 0.0 : kind == 0 ? s : kind == 1 ? v[i] : 1.0, "P26.diagonal-entry", i, j);
      OSQPCscMatrix_free(C); C = 0;
      break; }
    case 11: { /* cumulative sums */
      I p[5], c[4], c0[4], s = 0, t, z = sym_split(sym_int("n", 0, 4));
      for (i = 0; i < z; i++) { nm(b, "c", i, -1); c[i] = c0[i] = sym_int(b, 0, 1000); }
      t = csc_cumsum(p, c, z);
      for (i = 0; i < z; i++) { sym_check(p[i] == s && c[i] == s, "P26.cumsum"); s += c0[i]; }
      sym_check(p[z] == s && t == s, "P26.cumsum-total");
      sym_check(csc_cumsum(0, c, z) == -1 && csc_cumsum(p, 0, z) == -1, "P26.cumsum-null");
      break; }
  }
  (void)D;
  if (op < 9 && op != 7) for (j = 0; j < nn; j++) for (i = 0; i < mm; i++) if (!triu || i <= j) chk_eq(entry(&M.M, i, j), M.d[i][j], "P26.source-kept", i, j);
  if (C) csc_spfree(C);
  sym_check(sym_heap_live() == live, "P26.leak");
}
void harness(void) {
  if (sym_param("kkt", 0)) { p24(); return; }
  p26(sym_split(sym_int("op", sym_param("lo", 0), sym_param("hi", 0))));
  return;
}
