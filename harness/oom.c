/* Makes the n-th allocation of Python objects fail; called through ctypes by pydrive.py */
#include <stddef.h>
typedef struct { void *ctx; void *(*malloc)(void *, size_t); void *(*calloc)(void *, size_t, size_t); void *(*realloc)(void *, void *, size_t); void (*free)(void *, void *); } Alloc;
extern void PyMem_GetAllocator(int, Alloc *);
extern void PyMem_SetAllocator(int, Alloc *);
static Alloc old[2];
static long left = -1, seen;
static int fails(void) { if (left < 0) return 0; ++seen; return left > 0 && --left == 0; }
static void *m(void *c, size_t n) { Alloc *a = c; return fails() ? 0 : a->malloc(a->ctx, n); }
static void *k(void *c, size_t n, size_t s) { Alloc *a = c; return fails() ? 0 : a->calloc(a->ctx, n, s); }
static void *r(void *c, void *p, size_t n) { Alloc *a = c; return fails() ? 0 : a->realloc(a->ctx, p, n); }
static void f(void *c, void *p) { Alloc *a = c; a->free(a->ctx, p); }
void oom_install(void) { for (int d = 1; d <= 2; ++d) { Alloc n = {&old[d - 1], m, k, r, f}; PyMem_GetAllocator(d, &old[d - 1]); PyMem_SetAllocator(d, &n); } }
void oom_arm(long n) { left = n; seen = 0; }
/* 0: not armed any more; the number of allocations since it was armed comes from oom_seen */
void oom_pause(void) { if (left >= 0) left = -2 - left; }
void oom_resume(void) { if (left <= -2) left = -2 - left; }
long oom_stop(void) { long s = seen; left = -1; return s; }
