/* Built-in Koblitz curve orders: the true ones, for every field size. */
#include "hs.h"
#include "math/koblitz.h"
#include "gen/field.h"
#ifndef ALO
#define ALO 0
#define AHI 1
#define FOUND 1
#endif
#ifndef MMAX
#define MMAX 600
#endif
/* binary search over a table: a key is found at entry `at`, or lies just before it (at == n: after the last) */
static size_t at, size_n;
static bool found_here;
static ulong at_m, at_a;
void *bsearch(const void *key, const void *base, size_t n, size_t size, int (*cmp)(const void *, const void *)) {
	MODEL(size == sizeof(koblitz_t) && n <= 20 && n > 0, "the table of curves");
	const koblitz_t *t = base;
	size_n = n;
	ASSUME(at <= n);
	if (at + 1 < n) P(t[at].m < t[at + 1].m || (t[at].m == t[at + 1].m && t[at].a < t[at + 1].a), "the table is sorted, as the search needs");
	if (at < n) {
		int c = cmp(key, &t[at]);
		if (found_here) {
			ASSUME(c == 0);
			at_m = t[at].m;
			at_a = t[at].a;
			return (void *)&t[at];
		}
		ASSUME(c < 0);
	}
	ASSUME(!found_here);
	if (at > 0) ASSUME(cmp(key, &t[at - 1]) > 0);
	return NULL;
}
/* hexadecimal digits, most significant first */
GEN strtoi(const char *s) {
	mag_t v = 0;
	bool end = false;
	MODEL(s[0] == '0' && s[1] == 'x', "a hexadecimal constant");
	for (int i = 2; i < 2 + MMAX / 4 + 2; i++) {
		unsigned c = (unsigned char)s[i], d = 0;
		if (!end && c >= '0' && c <= '9') d = c - '0';
		else if (!end && c >= 'a' && c <= 'f') d = c - 'a' + 10;
		else if (!end && c >= 'A' && c <= 'F') d = c - 'A' + 10;
		else end = true;
		if (!end) v = (v << 4) | d;
		if (end) break;
	}
	MODEL(end, "length of a constant");
	return pm_mk((val_t)v);
}
/* trace of Frobenius of the m-th extension: V_0 = 2, V_1 = t, V_k+1 = t V_k - 2 V_k-1 */
/* (V_2k = V_k^2 - 2 2^k, V_2k+1 = V_k V_k+1 - t 2^k) */
static val_t lucas(ulong m, ulong a) {
	val_t t = a ? 1 : -1, v = 2, w = t; /* V_k, V_k+1 */
	ulong k = 0;
	for (int i = 9; i >= 0; i--) {
		val_t p = (val_t)1 << k;
		if ((m >> i) & 1) {
			v = v * w - t * p;
			w = w * w - 4 * p;
			k = 2 * k + 1;
		} else {
			w = v * w - t * p;
			v = v * v - 2 * p;
			k = 2 * k;
		}
	}
	return v;
}
void h_order(void) {
	pm_watch_init();
	found_here = FOUND;
	for (at = ALO; at < AHI; at++) {
		unsigned long m = nd_range(2, 100000), a = nd_range(0, 1);
		if (at > ALO && at > size_n) break;
		GEN o = koblitz_get_order(m, a);
		P((o != NULL) == FOUND, "an order is given exactly for the curves of the table");
		if (o) {
			P(m == at_m && a == at_a, "the order given is the one of the curve asked for");
			P(at_m >= 2 && at_m <= MMAX, "size of the field");
			P(pm_live(o), "a live number");
			val_t v = lucas(at_m, at_a);
			P(pm_v(o) == ((val_t)1 << at_m) + 1 - v, "the order is 2^m + 1 minus the trace of Frobenius");
			REACH("order");
		} else REACH("none");
	}
}
/* which curves are Koblitz curves */
#ifdef FMASK
GEN field_elementi(GEN x) { return pm_mk(pm_ul(pm_ffpoly(x))); }
void h_is(void) {
	pm_watch_init();
	curve_t *c = curve_new();
	ulong a = nd_bits(MDEG), b = nd_bits(MDEG);
	c->field = pm_mkff(2, FMASK);
	c->a = pm_mkff(a, FMASK);
	c->b = pm_mkff(b, FMASK);
	P(koblitz_is_curve(c) == (a <= 1 && b == 1), "a Koblitz curve has a zero or one and b one");
	P(pm_live(c->a) && pm_live(c->b), "the coefficients are untouched");
	REACH("is");
}
#endif
