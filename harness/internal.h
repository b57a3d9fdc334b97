#ifndef HINTERNAL_H
#define HINTERNAL_H
#include "common.h"
#include "types.h"
#include "algebra_vector.h"
#include "algebra_matrix.h"
/* user-unit view of an internal vector: y_i = v_i * s_i (s may be NULL) */
static void getv(const OSQPVectorf* v, const OSQPVectorf* s, I n, F* out) {
  I i; F* d = OSQPVectorf_data(v);
  for (i = 0; i < n; i++) out[i] = s ? d[i] * OSQPVectorf_data(s)[i] : d[i];
}
static void putv(OSQPVectorf* v, const F* in, I n) { I i; F* d = OSQPVectorf_data(v); for (i = 0; i < n; i++) d[i] = in[i]; }
#endif
