/* Reference models of the MKL routines the library calls, by their documented contract.
   Only compiled for symbolic execution; replays use the real MKL. */
#include <mkl.h>
#include <mkl_spblas.h>
#include <mkl_service.h>
#include <mkl_pardiso.h>
#include <mkl_rci.h>
#include "sym.h"
#include "hooks.h"

/* ---- service ---------------------------------------------------------- */
int  MKL_Get_Max_Threads(void) { return 1; }
int  MKL_Set_Interface_Layer(int c) { return c; }

/* ---- BLAS 1 ----------------------------------------------------------- */
#define BASE(n, inc) ((inc) < 0 ? (1 - (n)) * (inc) : 0)
void cblas_dcopy(const MKL_INT n, const double* x, const MKL_INT ix, double* y, const MKL_INT iy) {
  MKL_INT k, a = BASE(n, ix), b = BASE(n, iy);
  for (k = 0; k < n; k++) { y[b] = x[a]; a += ix; b += iy; }
}
void cblas_dswap(const MKL_INT n, double* x, const MKL_INT ix, double* y, const MKL_INT iy) {
  MKL_INT k, a = BASE(n, ix), b = BASE(n, iy);
  for (k = 0; k < n; k++) { double t = y[b]; y[b] = x[a]; x[a] = t; a += ix; b += iy; }
}
double cblas_ddot(const MKL_INT n, const double* x, const MKL_INT ix, const double* y, const MKL_INT iy) {
  MKL_INT k, a = BASE(n, ix), b = BASE(n, iy); double s = 0.0;
  for (k = 0; k < n; k++) { s = s + x[a] * y[b]; a += ix; b += iy; }
  return s;
}
void cblas_dscal(const MKL_INT n, const double al, double* x, const MKL_INT ix) {
  MKL_INT k; if (ix <= 0) return;
  for (k = 0; k < n; k++) x[k * ix] = al * x[k * ix];
}
void cblas_daxpy(const MKL_INT n, const double al, const double* x, const MKL_INT ix, double* y, const MKL_INT iy) {
  MKL_INT k, a = BASE(n, ix), b = BASE(n, iy);
  for (k = 0; k < n; k++) { y[b] = y[b] + al * x[a]; a += ix; b += iy; }
}
double cblas_dasum(const MKL_INT n, const double* x, const MKL_INT ix) {
  MKL_INT k; double s = 0.0; if (ix <= 0) return 0.0;
  for (k = 0; k < n; k++) { double v = x[k * ix]; s = s + (v < 0 ? -v : v); }
  return s;
}
double cblas_dnrm2(const MKL_INT n, const double* x, const MKL_INT ix) {
  MKL_INT k; double s = 0.0; double sqrt(double); if (ix <= 0) return 0.0;
  for (k = 0; k < n; k++) { double v = x[k * ix]; s = s + v * v; }
  return sqrt(s);
}
CBLAS_INDEX cblas_idamax(const MKL_INT n, const double* x, const MKL_INT ix) {
  MKL_INT k, best = 0; double m;
  if (n < 1 || ix < 1) return 0;
  m = x[0] < 0 ? -x[0] : x[0];
  for (k = 1; k < n; k++) { double v = x[k * ix]; double a = v < 0 ? -v : v; if (a > m) { m = a; best = k; } }
  return (CBLAS_INDEX)best;
}

/* ---- VML -------------------------------------------------------------- */
double fabs(double); double sqrt(double);
void vdAdd(const MKL_INT n, const double a[], const double b[], double r[]) { MKL_INT i; for (i = 0; i < n; i++) r[i] = a[i] + b[i]; }
void vdSub(const MKL_INT n, const double a[], const double b[], double r[]) { MKL_INT i; for (i = 0; i < n; i++) r[i] = a[i] - b[i]; }
void vdMul(const MKL_INT n, const double a[], const double b[], double r[]) { MKL_INT i; for (i = 0; i < n; i++) r[i] = a[i] * b[i]; }
void vdDiv(const MKL_INT n, const double a[], const double b[], double r[]) { MKL_INT i; for (i = 0; i < n; i++) r[i] = a[i] / b[i]; }
void vdInv(const MKL_INT n, const double a[], double r[]) { MKL_INT i; for (i = 0; i < n; i++) r[i] = 1.0 / a[i]; }
void vdSqrt(const MKL_INT n, const double a[], double r[]) { MKL_INT i; for (i = 0; i < n; i++) r[i] = sqrt(a[i]); }
void vdAbs(const MKL_INT n, const double a[], double r[]) { MKL_INT i; for (i = 0; i < n; i++) r[i] = fabs(a[i]); }
static double mfmax(double a, double b) { return a != a ? b : b != b ? a : (a > b ? a : b); }
static double mfmin(double a, double b) { return a != a ? b : b != b ? a : (a < b ? a : b); }
void vdFmax(const MKL_INT n, const double a[], const double b[], double r[]) { MKL_INT i; for (i = 0; i < n; i++) r[i] = mfmax(a[i], b[i]); }
void vdFmin(const MKL_INT n, const double a[], const double b[], double r[]) { MKL_INT i; for (i = 0; i < n; i++) r[i] = mfmin(a[i], b[i]); }
void vdFmaxI(const MKL_INT n, const double a[], const MKL_INT ia, const double b[], const MKL_INT ib, double r[], const MKL_INT ir) {
  MKL_INT i; for (i = 0; i < n; i++) r[i * ir] = mfmax(a[i * ia], b[i * ib]); }
void vdFminI(const MKL_INT n, const double a[], const MKL_INT ia, const double b[], const MKL_INT ib, double r[], const MKL_INT ir) {
  MKL_INT i; for (i = 0; i < n; i++) r[i * ir] = mfmin(a[i * ia], b[i * ib]); }
void vdAddI(const MKL_INT n, const double a[], const MKL_INT ia, const double b[], const MKL_INT ib, double r[], const MKL_INT ir) {
  MKL_INT i; for (i = 0; i < n; i++) r[i * ir] = a[i * ia] + b[i * ib]; }
void vdSubI(const MKL_INT n, const double a[], const MKL_INT ia, const double b[], const MKL_INT ib, double r[], const MKL_INT ir) {
  MKL_INT i; for (i = 0; i < n; i++) r[i * ir] = a[i * ia] - b[i * ib]; }
void vdMulI(const MKL_INT n, const double a[], const MKL_INT ia, const double b[], const MKL_INT ib, double r[], const MKL_INT ir) {
  MKL_INT i; for (i = 0; i < n; i++) r[i * ir] = a[i * ia] * b[i * ib]; }

/* ---- Sparse BLAS (CSC handles reference the caller's arrays) ----------- */
typedef struct { MKL_INT rows, cols; MKL_INT *ps, *pe, *ri; double* v; sparse_index_base_t base; } spm;
sparse_status_t mkl_sparse_d_create_csc(sparse_matrix_t* A, const sparse_index_base_t base, const MKL_INT rows, const MKL_INT cols,
                                        MKL_INT* ps, MKL_INT* pe, MKL_INT* ri, double* v) {
  spm* s;
  if (!A) return SPARSE_STATUS_NOT_INITIALIZED;
  if (!ps || !pe || !ri || !v) { *A = 0; return SPARSE_STATUS_NOT_INITIALIZED; }
  if (rows <= 0 || cols <= 0) { *A = 0; return SPARSE_STATUS_INVALID_VALUE; }
  s = (spm*)sym_model_alloc(sizeof(spm));
  s->rows = rows; s->cols = cols; s->ps = ps; s->pe = pe; s->ri = ri; s->v = v; s->base = base;
  *A = (sparse_matrix_t)s;
  return SPARSE_STATUS_SUCCESS;
}
sparse_status_t mkl_sparse_d_export_csc(const sparse_matrix_t A, sparse_index_base_t* base, MKL_INT* rows, MKL_INT* cols,
                                        MKL_INT** ps, MKL_INT** pe, MKL_INT** ri, double** v) {
  spm* s = (spm*)A;
  if (!s) return SPARSE_STATUS_NOT_INITIALIZED;
  *base = s->base; *rows = s->rows; *cols = s->cols; *ps = s->ps; *pe = s->pe; *ri = s->ri; *v = s->v;
  return SPARSE_STATUS_SUCCESS;
}
sparse_status_t mkl_sparse_destroy(sparse_matrix_t A) { if (!A) return SPARSE_STATUS_NOT_INITIALIZED; sym_model_free(A); return SPARSE_STATUS_SUCCESS; }
sparse_status_t mkl_sparse_d_mv(const sparse_operation_t op, const double alpha, const sparse_matrix_t A, const struct matrix_descr d,
                                const double* x, const double beta, double* y) {
  spm* s = (spm*)A; MKL_INT i, j, k, ny; double t[64];
  if (!s) return SPARSE_STATUS_NOT_INITIALIZED;
  ny = (d.type == SPARSE_MATRIX_TYPE_SYMMETRIC) ? s->rows : (op == SPARSE_OPERATION_NON_TRANSPOSE ? s->rows : s->cols);
  for (i = 0; i < ny; i++) t[i] = 0.0;
  for (j = 0; j < s->cols; j++) {
    for (k = s->ps[j]; k < s->pe[j]; k++) {
      i = s->ri[k];
      if (d.type == SPARSE_MATRIX_TYPE_SYMMETRIC) {
        int use = d.mode == SPARSE_FILL_MODE_UPPER ? (i <= j) : (i >= j);
        if (!use) continue;
        t[i] += s->v[k] * x[j];
        if (i != j) t[j] += s->v[k] * x[i];
      } else if (op == SPARSE_OPERATION_NON_TRANSPOSE) t[i] += s->v[k] * x[j];
      else t[j] += s->v[k] * x[i];
    }
  }
  if (beta == 0.0) for (i = 0; i < ny; i++) y[i] = alpha * t[i];
  else             for (i = 0; i < ny; i++) y[i] = alpha * t[i] + beta * y[i];
  return SPARSE_STATUS_SUCCESS;
}

/* ---- PARDISO (mtype -2: upper triangular CSR, sorted, full diagonal) --- */
typedef struct { MKL_INT n; double* K; int symbolic, numeric; MKL_INT nnz; MKL_INT *ia, *ja; } pard;
/* what PARDISO requires of its input; a violation is a contract breach by the caller */
static MKL_INT pard_structure(MKL_INT n, const MKL_INT* ia, const MKL_INT* ja) {
  MKL_INT i, k;
  if (ia[0] != 1) return -1;
  for (i = 0; i < n; i++) {
    MKL_INT last = i;           /* 1-based last column seen; first must be i+1 (the diagonal) */
    if (ia[i + 1] <= ia[i]) return -1;
    for (k = ia[i] - 1; k < ia[i + 1] - 1; k++) {
      if (ja[k] <= last || ja[k] > n) return -1;
      if (k == ia[i] - 1 && ja[k] != i + 1) return -1;
      last = ja[k];
    }
  }
  return 0;
}
/* number of positive eigenvalues of a symmetric matrix of order <= 3: all roots of its characteristic polynomial are
   real, so by Descartes' rule it is the number of sign changes of the coefficients */
static MKL_INT inertia_sym(MKL_INT n, const double* K) {
  double c[4]; MKL_INT i, last = 1, cnt = 0;
  c[0] = 1.0; c[1] = c[2] = c[3] = 0.0;
  for (i = 0; i < n; i++) c[1] -= K[i * n + i];
  if (n == 2) c[2] = K[0] * K[3] - K[1] * K[1];
  if (n == 3) {
    c[2] = K[0] * K[4] - K[1] * K[1] + K[0] * K[8] - K[2] * K[2] + K[4] * K[8] - K[5] * K[5];
    c[3] = -(K[0] * (K[4] * K[8] - K[5] * K[5]) - K[1] * (K[1] * K[8] - K[5] * K[2]) + K[2] * (K[1] * K[5] - K[4] * K[2]));
  }
  for (i = 1; i <= n; i++) {
    MKL_INT sg = c[i] > 0.0 ? 1 : (c[i] < 0.0 ? -1 : 0);
    if (sg * last < 0) cnt = cnt + 1;
    if (sg != 0) last = sg;
  }
  return cnt;
}
void PARDISO(_MKL_DSS_HANDLE_t ptv, const MKL_INT* maxfct, const MKL_INT* mnum, const MKL_INT* mtype, const MKL_INT* phase,
             const MKL_INT* np, const void* av, const MKL_INT* ia, const MKL_INT* ja, MKL_INT* perm, const MKL_INT* nrhs,
             MKL_INT* iparm, const MKL_INT* msglvl, void* bv, void* xv, MKL_INT* error) {
  void** pt = (void**)ptv; const double* a = (const double*)av; double* b = (double*)bv; double* x = (double*)xv;
  MKL_INT n = *np, i, k; pard* s = (pard*)pt[0];
  (void)maxfct; (void)mnum; (void)perm; (void)msglvl;
  if (hook_pardiso) hook_pardiso(*phase);
  hook_pardiso_count[*phase == 11 ? 0 : *phase == 22 ? 1 : *phase == 33 ? 2 : 3]++;
  *error = 0;
  if (hook_pardiso_error && hook_pardiso_error_phase == *phase) { *error = hook_pardiso_error; hook_pardiso_error = 0; return; }
  if (*phase == -1) {
    if (s) { if (s->K) sym_model_free(s->K); if (s->ia) sym_model_free(s->ia); if (s->ja) sym_model_free(s->ja); sym_model_free(s); }
    pt[0] = 0;
    return;
  }
  if (*mtype != -2 || *nrhs != 1 || iparm[34] != 0) { *error = -1; return; }
  if (pard_structure(n, ia, ja)) { *error = -1; return; }
  if (*phase == 11) {
    if (!s) { s = (pard*)sym_model_alloc(sizeof(pard)); pt[0] = s; }
    s->n = n; s->symbolic = 1; s->nnz = ia[n] - 1;
    s->ia = (MKL_INT*)sym_model_alloc((n + 1) * sizeof(MKL_INT));
    s->ja = (MKL_INT*)sym_model_alloc((s->nnz + 1) * sizeof(MKL_INT));
    for (i = 0; i <= n; i++) s->ia[i] = ia[i];
    for (i = 0; i < s->nnz; i++) s->ja[i] = ja[i];
    return;
  }
  if (!s || !s->symbolic) { *error = -1; return; }
  for (i = 0; i <= n; i++) if (s->ia[i] != ia[i]) { *error = -1; return; }   /* pattern must be the analysed one */
  for (i = 0; i < s->nnz; i++) if (s->ja[i] != ja[i]) { *error = -1; return; }
  if (*phase == 22) {
    if (!s->K) s->K = (double*)sym_model_alloc(n * n * sizeof(double));
    for (i = 0; i < n * n; i++) s->K[i] = 0.0;
    for (i = 0; i < n; i++)
      for (k = ia[i] - 1; k < ia[i + 1] - 1; k++) {
        MKL_INT j = ja[k] - 1;
        s->K[i * n + j] = a[k];
        s->K[j * n + i] = a[k];
      }
    s->numeric = 1;
    iparm[21] = sym_param("inertia", 0) ? inertia_sym(n, s->K) : sym_inertia(n, s->K, n);
    iparm[22] = n - iparm[21];
    return;
  }
  if (*phase == 33) {
    if (!s->numeric) { *error = -1; return; }
    if (sym_linsolve(n, s->K, b, x)) { *error = -4; return; }
    if (iparm[5] == 1) for (i = 0; i < n; i++) { b[i] = x[i]; }
    return;
  }
  *error = -1;
}

/* ---- RCI conjugate gradients -------------------------------------------
   Protocol of dcg with user stopping test: A*x0, residual, user test, (precond), direction, A*p, update, user test, ...
   All in exact arithmetic. tmp = [p | A p | r | M^-1 r], n each. */
void dcg_init(const MKL_INT* n, const double* x, const double* b, MKL_INT* rci, MKL_INT* ipar, double* dpar, double* tmp) {
  MKL_INT i; (void)x; (void)b; (void)tmp;
  for (i = 0; i < 128; i++) { ipar[i] = 0; dpar[i] = 0.0; }
  ipar[0] = *n; ipar[1] = 6; ipar[2] = 1; ipar[3] = 0; ipar[4] = *n < 150 ? *n : 150; ipar[5] = 1; ipar[6] = 1; ipar[7] = 1;
  ipar[8] = 0; ipar[9] = 1; ipar[10] = 0;
  dpar[0] = 1.0e-6;
  *rci = 0;
}
void dcg_check(const MKL_INT* n, const double* x, const double* b, MKL_INT* rci, MKL_INT* ipar, double* dpar, double* tmp) {
  (void)n; (void)x; (void)b; (void)ipar; (void)dpar; (void)tmp; *rci = 0;
}
void dcg_get(const MKL_INT* n, const double* x, const double* b, const MKL_INT* rci, const MKL_INT* ipar, const double* dpar, const double* tmp, MKL_INT* it) {
  (void)n; (void)x; (void)b; (void)rci; (void)dpar; (void)tmp; *it = ipar[3];
}
void dcg(const MKL_INT* np, double* x, const double* b, MKL_INT* rci, MKL_INT* ipar, double* dpar, double* tmp) {
  MKL_INT n = *np, i; double *p = tmp, *q = tmp + n, *r = tmp + 2 * n, *z = tmp + 3 * n;
  const double* zz; double rz, pq, al, be;
  enum { START = 0, GOT_AX0 = 1, GOT_PREC = 2, TESTED = 3, GOT_AP = 4 };
  MKL_INT st = ipar[100];
  if (st == START) { for (i = 0; i < n; i++) p[i] = x[i]; ipar[100] = GOT_AX0; *rci = 1; return; }
  if (st == GOT_AX0 || st == GOT_AP) {
    if (st == GOT_AX0) for (i = 0; i < n; i++) r[i] = b[i] - q[i];
    else {
      pq = 0.0; for (i = 0; i < n; i++) pq += p[i] * q[i];
      al = dpar[100] / pq;
      for (i = 0; i < n; i++) { x[i] += al * p[i]; r[i] -= al * q[i]; }
    }
    ipar[100] = GOT_PREC;
    if (ipar[10]) { *rci = 3; return; }
    st = GOT_PREC;
  }
  if (st == GOT_PREC) {
    zz = ipar[10] ? z : r;
    rz = 0.0; for (i = 0; i < n; i++) rz += r[i] * zz[i];
    be = ipar[3] == 0 ? 0.0 : rz / dpar[100];
    dpar[100] = rz;
    if (ipar[3] == 0) for (i = 0; i < n; i++) p[i] = zz[i];
    else              for (i = 0; i < n; i++) p[i] = zz[i] + be * p[i];
    ipar[100] = TESTED;
    if (ipar[7] && ipar[3] >= ipar[4]) { *rci = 0; return; }
    if (ipar[9]) { *rci = 2; return; }
    st = TESTED;
  }
  /* the user did not stop */
  ipar[3]++;
  ipar[100] = GOT_AP;
  *rci = 1;
}

void MKL_Get_Version(MKLVersion* v) {
  v->MajorVersion = 2025; v->MinorVersion = 1; v->UpdateVersion = 0;
  v->ProductStatus = "x"; v->Build = "x"; v->Processor = "cpu"; v->Platform = "x";
}
