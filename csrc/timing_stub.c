/* Virtual clock that replaces timing_linux.c in harnesses whose subject is not the clock itself. */
#include "osqp.h"
#include "timing.h"
#include "hooks.h"
#include <stdlib.h>
struct OSQPTimer_ { double t0; };
static double now(void) { return hook_clock ? hook_clock() : 0.0; }
OSQPTimer* OSQPTimer_new(void) { OSQPTimer* t = (OSQPTimer*)malloc(sizeof(OSQPTimer)); if (t) t->t0 = 0.0; return t; }
void       OSQPTimer_free(OSQPTimer* t) { if (t) free(t); }
void       osqp_tic(OSQPTimer* t) { t->t0 = now(); }
OSQPFloat  osqp_toc(OSQPTimer* t) { return now() - t->t0; }
