/* The allocation helpers over an allocator that may fail at any time. */
#include "pm.h"
#include "misc/types.h"
#include "obj/curve.h"
#include "obj/point.h"
#include "obj/subgroup.h"
#include "util/memory.h"
#include <stdlib.h>
#include <unistd.h>
#ifndef LEN2
#define LEN2 9
#endif
#ifndef LEN
#define LEN 9
#endif
/* the allocator: each call may return NULL; what it hands out is known */
static unsigned ncall, fails;
static size_t asked;
static void *given, *freed;
static bool fail_now(void) {
	ncall++;
	if (nd_bool()) { fails++; return true; }
	P(fails == 0, "nothing is allocated after a failure");
	return false;
}
void pm_exit(int c) { /* exit() of the code under test */
	P(fails != 0, "the program ends only when memory cannot be had");
	P(c != 0, "and then with an error");
#ifdef VCBMC
	__CPROVER_assume(0);
#else
	_exit(0);
#endif
}
static unsigned char fill;
static unsigned char *raw(size_t n) { unsigned char *p = malloc(n ? n : 1); return p; }
void *pari_malloc(size_t n) {
	asked = n;
	if (fail_now()) return NULL;
	unsigned char *p = raw(n);
	for (size_t i = 0; i < n; i++) p[i] = fill; /* whatever was there */
	return given = p;
}
void *pari_calloc(size_t n) {
	asked = n;
	if (fail_now()) return NULL;
	unsigned char *p = raw(n);
	for (size_t i = 0; i < n; i++) p[i] = 0;
	return given = p;
}
void *pari_realloc(void *old, size_t n) {
	asked = n;
	if (fail_now()) return NULL;
	return given = realloc(old, n ? n : 1);
}
void pari_free(void *p) { freed = p; free(p); }
static unsigned char src[LEN + 1];
static void fresh(void) {
	fill = (unsigned char)nd_bits(8);
	for (int i = 0; i < LEN; i++) src[i] = (unsigned char)nd_bits(8);
	src[LEN] = 0;
}
static void usable(unsigned char *p, size_t n) {
	P(p != NULL, "never null");
	P(fails == 0, "a failure ends the program");
	P(asked >= n && ncall == 1, "memory of the requested size");
	for (size_t i = 0; i < n; i++) p[i] = (unsigned char)(i ^ p[i]); /* every byte can be used */
}
void h_malloc(void) { fresh(); unsigned char *p = try_malloc(LEN); usable(p, LEN); try_free(p); P(freed == p, "freed"); REACH("malloc"); }
void h_calloc(void) {
	fresh();
	unsigned char *p = try_calloc(LEN);
	P(p != NULL, "never null");
	for (size_t i = 0; i < LEN; i++) P(p[i] == 0, "zeroed");
	usable(p, LEN);
	try_free(p);
	P(freed == p, "freed");
	REACH("calloc");
}
void h_memdup(void) {
	fresh();
	unsigned char *p = try_memdup(src, LEN);
	P(p != NULL && p != src, "a copy, never null");
	for (size_t i = 0; i < LEN; i++) P(p[i] == src[i], "the copy has the same bytes");
	usable(p, LEN);
	try_free(p);
	REACH("memdup");
}
void h_strdup(void) {
	fresh();
	size_t n = 0;
	for (; n < LEN && src[n]; n++) ;
	pm_strreg((char *)src, n);
	unsigned char *p = (unsigned char *)try_strdup((char *)src);
	P(p != NULL && p != src, "a copy, never null");
	for (size_t i = 0; i <= LEN; i++) if (i <= n) P(p[i] == src[i], "the copy has the same text, terminated");
	P(asked >= n + 1 && fails == 0, "memory of the requested size");
	try_free(p);
	REACH("strdup");
}
void h_realloc(void) {
	fresh();
	unsigned char *o = malloc(LEN), *p;
	for (int i = 0; i < LEN; i++) o[i] = src[i];
	size_t n = LEN2;
	p = try_realloc(o, n);
	P(p != NULL, "never null");
	for (size_t i = 0; i < n && i < LEN; i++) P(p[i] == src[i], "the old content is kept");
	usable(p, n);
	try_free(p);
	REACH("realloc");
}
/* vectors of objects */
#ifndef NOBJ
#define NOBJ 3
#endif
void h_vectors(void) {
	fresh();
	point_t **p = points_new(NOBJ);
	P(p != NULL, "never null");
	P(asked >= NOBJ * sizeof(point_t *), "a vector has room for the requested number of objects");
	for (int i = 0; i < NOBJ; i++) P(p[i] == NULL, "of which none is made yet");
	for (int i = 0; i < NOBJ; i++) p[i] = (point_t *)src;
	points_free(&p);
	P(p == NULL, "the handle is cleared");
	ncall = 0;
	subgroup_t **s = subgroups_new(NOBJ);
	P(s != NULL, "never null");
	P(asked >= NOBJ * sizeof(subgroup_t *), "a vector has room for the requested number of objects");
	for (int i = 0; i < NOBJ; i++) P(s[i] == NULL, "of which none is made yet");
	for (int i = 0; i < NOBJ; i++) s[i] = (subgroup_t *)src;
	subgroups_free(&s);
	P(s == NULL, "the handle is cleared");
	REACH("vectors");
}
void h_objects(void) {
	fresh();
	curve_t *c = curve_new();
	P(c != NULL && asked >= sizeof(curve_t) && ncall == 1, "a curve, never null");
	P(!c->seed && !c->field && !c->a && !c->b && !c->curve && !c->order && !c->generators && c->ngens == 0 && !c->meta.conductor && !c->meta.j_invariant, "empty");
	ncall = 0;
	point_t *p = point_new();
	P(p != NULL && asked >= sizeof(point_t) && ncall == 1, "a point, never null");
	P(!p->point && !p->order && !p->cofactor, "empty");
	ncall = 0;
	subgroup_t *s = subgroup_new();
	P(s != NULL && asked >= sizeof(subgroup_t) && ncall == 1, "a subgroup, never null");
	P(!s->generator && !s->points && s->npoints == 0, "empty");
	P(fails == 0, "a failure ends the program");
	REACH("objects");
}
/* other allocation functions can be installed, and are then used */
static unsigned mine;
static void *my_malloc(size_t n) { mine |= 1; return malloc(n); }
static void *my_calloc(size_t n) { mine |= 2; return calloc(1, n); }
static void *my_realloc(void *p, size_t n) { mine |= 4; return realloc(p, n); }
static void my_free(void *p) { mine |= 8; free(p); }
void h_set(void) {
	set_mem_funcs(my_malloc, my_calloc, my_realloc, my_free);
	void *p = try_malloc(LEN);
	P(p && mine == 1, "the installed malloc");
	p = try_realloc(p, LEN + 1);
	P(p && mine == 5, "the installed realloc");
	try_free(p);
	P(mine == 13, "the installed free");
	mine = 0;
	p = try_calloc(LEN);
	P(p && mine == 2, "the installed calloc");
	P(ncall == 0, "and nothing else");
	REACH("set");
}
