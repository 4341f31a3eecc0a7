/* The bytes alive, for R's .C() */
#include <stddef.h>
size_t __sanitizer_get_current_allocated_bytes(void);
void alive(double *x) { *x = (double)__sanitizer_get_current_allocated_bytes(); }
