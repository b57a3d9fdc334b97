/* Interface between harnesses and (a) the symbolic executor, (b) the native replayer. */
#ifndef SYM_H
#define SYM_H
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
double    sym_double(const char* name);                 /* any finite real           */
double    sym_pos(const char* name);                    /* any strictly positive real */
double    sym_ext(const char* name, long long mask);    /* 1 finite | 2 +inf | 4 -inf | 8 NaN */
long long sym_int(const char* name, long long lo, long long hi);
long long sym_split(long long v);                       /* fork until v is concrete  */
long long sym_param(const char* name, long long dflt);  /* concrete, from the job    */
double    sym_paramd(const char* name, double dflt);
int       sym_is_symbolic(void);
void sym_assume(int c);
void sym_check(int c, const char* label);
void sym_check_eq(double a, double b, const char* label);
void sym_check_le(double a, double b, const char* label);
void sym_check_lt(double a, double b, const char* label);
void sym_cover(const char* label);
void sym_observe(const char* label, double v);
void sym_observe_int(const char* label, long long v);
void sym_fail_at(long long k, long long all);           /* k-th next allocation fails; k<0: never */
long long sym_alloc_count(void);
long long sym_heap_live(void);
void sym_end(void);
void sym_log(const char* s, double v);
/* model only */
int       sym_linsolve(long long n, const double* K, const double* b, double* x);
long long sym_inertia(long long n, const double* K, long long dflt);
void*     sym_model_alloc(size_t n);
void      sym_model_free(void* p);
long long sym_model_live(void);
#ifdef __cplusplus
}
#endif
#endif
