/* Forced include of the harness build (never of /repo's own build): makes the library-internal
   entry points visible to the test driver. No behaviour changes. */
#include <petscsys.h>
#undef PETSC_VISIBILITY_INTERNAL
#define PETSC_VISIBILITY_INTERNAL __attribute__((visibility("default")))
