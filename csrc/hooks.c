#include "hooks.h"
void      (*hook_pardiso)(long long phase) = 0;
long long hook_pardiso_error       = 0;
long long hook_pardiso_error_phase = 0;
long long hook_pardiso_count[4];
double    (*hook_clock)(void) = 0;
