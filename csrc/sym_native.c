/* Native side of the sym_* interface: reads the solver's assignment and replays. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <unistd.h>
#include "sym.h"

#define MAXV 4096
static char   names[MAXV][64];
static char   texts[MAXV][64];
static int    nv = -1;
static int    failed = 0;
static FILE*  obs = 0;
static double tol = 1e-6;

static void load(void) {
  const char* f = getenv("SYM_INPUT");
  FILE* h; char a[64], b[64];
  const char* t = getenv("SYM_TOL");
  if (t) tol = atof(t);
  nv = 0;
  obs = fdopen(dup(2), "w");
  if (!f) return;
  h = fopen(f, "r");
  if (!h) { fprintf(stderr, "NO-INPUT %s\n", f); exit(4); }
  while (nv < MAXV && fscanf(h, "%63s %63s", a, b) == 2) { strcpy(names[nv], a); strcpy(texts[nv], b); nv++; }
  fclose(h);
}
static const char* find(const char* n) {
  int i; if (nv < 0) load();
  for (i = 0; i < nv; i++) if (!strcmp(names[i], n)) return texts[i];
  return 0;
}
static double num(const char* t) { char* e; double v = strtod(t, &e); return *e == '/' ? v / strtod(e + 1, 0) : v; }
double sym_double(const char* n) { const char* t = find(n); return t ? num(t) : 0.0; }
double sym_pos(const char* n) { const char* t = find(n); return t ? num(t) : 1.0; }
double sym_ext(const char* n, long long mask) { (void)mask; return sym_double(n); }
long long sym_int(const char* n, long long lo, long long hi) { const char* t = find(n); (void)hi; return t ? strtoll(t, 0, 10) : lo; }
long long sym_split(long long v) { return v; }
long long sym_param(const char* n, long long d) { const char* t = find(n); return t ? strtoll(t, 0, 10) : d; }
double sym_paramd(const char* n, double d) { const char* t = find(n); return t ? num(t) : d; }
int sym_is_symbolic(void) { return 0; }
static void finish(int code) {
  if (nv < 0) load();
  if (code == 0 && failed) code = 1;
  fprintf(stderr, "SYM-DONE %d\n", code);
  fflush(stderr); fflush(stdout);
  _exit(code);
}
void sym_assume(int c) { if (!c) { fprintf(stderr, "ASSUME-FAIL\n"); finish(3); } }
void sym_check(int c, const char* l) { if (!c) { fprintf(stderr, "CHECK-FAIL %s\n", l); failed = 1; } }
static int same(double a, double b) {
  if (isnan(a) || isnan(b)) return isnan(a) && isnan(b);
  if (isinf(a) || isinf(b)) return a == b;
  return fabs(a - b) <= tol * (1.0 + fabs(a) + fabs(b));
}
void sym_check_eq(double a, double b, const char* l) { if (!same(a, b)) { fprintf(stderr, "CHECK-FAIL %s (%.17g vs %.17g)\n", l, a, b); failed = 1; } }
void sym_check_le(double a, double b, const char* l) {
  if (!(a <= b) && !same(a, b)) { fprintf(stderr, "CHECK-FAIL %s (%.17g > %.17g)\n", l, a, b); failed = 1; } }
void sym_check_lt(double a, double b, const char* l) {
  if (!(a < b) && !same(a, b)) { fprintf(stderr, "CHECK-FAIL %s (%.17g >= %.17g)\n", l, a, b); failed = 1; } }
void sym_cover(const char* l) { fprintf(stderr, "COVER %s\n", l); }
void sym_observe(const char* l, double v) { fprintf(stderr, "OBS %s %.17g\n", l, v); }
void sym_observe_int(const char* l, long long v) { fprintf(stderr, "OBS %s %lld\n", l, v); }
void sym_end(void) { finish(0); }
void sym_log(const char* s, double v) { fprintf(stderr, "LOG %s %.17g\n", s, v); }
void* sym_model_alloc(size_t n) { return calloc(1, n); }
void  sym_model_free(void* p) { free(p); }
long long sym_model_live(void) { return 0; }

/* ---- counted / failing allocator, used by the library and the harness -- */
static long long allocs = 0, live = 0, fail_at = -1, fail_all = 0;
static int fails(void) { long long k = allocs++; return fail_at >= 0 && k >= fail_at && (fail_all || k == fail_at); }
void* symw_malloc(size_t n) { void* p; if (n && fails()) return 0; p = malloc(n); if (p) { live++; memset(p, 0x42, n); } return p; }
void* symw_calloc(size_t a, size_t b) { void* p; if (a * b && fails()) return 0; p = calloc(a, b); if (p) live++; return p; }
void  symw_free(void* p) { if (p) live--; free(p); }
void* symw_realloc(void* p, size_t n) { void* q; if (n && fails()) return 0; q = realloc(p, n); if (q && !p) live++; return q; }
void* symw_mkl_malloc(size_t n, int al) { void* p; (void)al; if (n == 0 || fails()) return 0; p = malloc(n); if (p) { live++; memset(p, 0x42, n); } return p; }
void* symw_mkl_calloc(size_t a, size_t b, int al) { void* p; (void)al; if (a * b == 0 || fails()) return 0; p = calloc(a, b); if (p) live++; return p; }
void  symw_mkl_free(void* p) { if (p) live--; free(p); }
void  sym_fail_at(long long k, long long all) { fail_at = k < 0 ? -1 : allocs + k; fail_all = all; }
long long sym_alloc_count(void) { return allocs; }
long long sym_heap_live(void) { return live; }

void harness(void);
int main(void) {
  if (nv < 0) load();
  harness();
  finish(0);
  return 0;
}
