/* hook points shared by the MKL models and the native wrappers */
#ifndef HOOKS_H
#define HOOKS_H
extern void      (*hook_pardiso)(long long phase);   /* called before each PARDISO phase */
extern long long hook_pardiso_error;                 /* if !=0, next PARDISO call of phase hook_pardiso_error_phase returns it */
extern long long hook_pardiso_error_phase;
extern long long hook_pardiso_count[4];              /* symbolic, numeric, solve, cleanup */
extern double    (*hook_clock)(void);                /* virtual clock, seconds */
#endif
