/* Native wrapper around the real PARDISO: counts phases, hook points, error injection. */
#include <mkl.h>
#include <mkl_pardiso.h>
#include "hooks.h"
void sym_PARDISO(_MKL_DSS_HANDLE_t pt, const MKL_INT* maxfct, const MKL_INT* mnum, const MKL_INT* mtype, const MKL_INT* phase,
             const MKL_INT* np, const void* a, const MKL_INT* ia, const MKL_INT* ja, MKL_INT* perm, const MKL_INT* nrhs,
             MKL_INT* iparm, const MKL_INT* msglvl, void* b, void* x, MKL_INT* error) {
  if (hook_pardiso) hook_pardiso(*phase);
  hook_pardiso_count[*phase == 11 ? 0 : *phase == 22 ? 1 : *phase == 33 ? 2 : 3]++;
  if (hook_pardiso_error && hook_pardiso_error_phase == *phase) { *error = hook_pardiso_error; hook_pardiso_error = 0; return; }
  PARDISO(pt, maxfct, mnum, mtype, phase, np, a, ia, ja, perm, nrhs, iparm, msglvl, b, x, error);
}
