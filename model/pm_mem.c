/* Stand-ins for ecgen's allocation wrappers (util/memory.c): same contract
 * (never NULL, calloc zeroes), without the function-pointer indirection.
 * The wrappers themselves are checked separately.  For the solver build the
 * common structure types are allocated with their type, which only helps the
 * encoding: an object is still just its bytes. */
#include "pm.h"
#include "misc/types.h"
#include "util/bits.h"
#include <stdlib.h>
long pm_try_live = 0; /* blocks handed out and not yet freed */
#ifndef PM_PTRWORDS
#define PM_PTRWORDS 8
#endif
#ifdef VCBMC
#define TYPED(T, z) if (n == sizeof(T)) return __CPROVER_allocate(sizeof(T), z)
static void *pm_alloc(size_t n, int z) {
	P(n < (1UL << 32), "an absurd amount of memory is requested");
	TYPED(bits_t, 1);
	TYPED(curve_t, 1);
	TYPED(seed_t, 1);
	if (n % sizeof(void *) == 0 && n <= PM_PTRWORDS * sizeof(void *)) return __CPROVER_allocate(sizeof(void *) * (n / sizeof(void *)), 1);
	return __CPROVER_allocate(n, 1);
}
void *try_malloc(size_t n) { pm_try_live++; return malloc(n); }
void *try_calloc(size_t n) { pm_try_live++; return pm_alloc(n, 1); }
#else
#define pm_alloc(n, z) calloc(1, n)
void *try_malloc(size_t n) { P(n < (1UL << 32), "an absurd amount of memory is requested"); pm_try_live++; return malloc(n); }
void *try_calloc(size_t n) { P(n < (1UL << 32), "an absurd amount of memory is requested"); pm_try_live++; return calloc(1, n); }
#endif
void *try_realloc(void *p, size_t n) { if (!p) pm_try_live++; return realloc(p, n); }
void *try_memdup(const void *m, size_t n) {
	unsigned char *r = malloc(n);
	pm_try_live++;
	const unsigned char *s = m;
	for (size_t i = 0; i < n; i++) r[i] = s[i];
	return r;
}
char *try_strdup(const char *s) {
	size_t n = strlen(s);
	char *r = malloc(n + 1);
	pm_try_live++;
	for (size_t i = 0; i <= n; i++) r[i] = s[i];
	pm_strreg(r, n);
	return r;
}
void try_free(void *p) { if (p) pm_try_live--; free(p); }
