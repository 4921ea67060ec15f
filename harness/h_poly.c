/* The table of reduction polynomials: shape for every size; no factor of small degree. */
#include "hs.h"
#include "math/poly.h"
#ifndef MLO
#define MLO 2
#endif
#ifndef MHI
#define MHI 31
#endif
#ifndef GDEG
#define GDEG 8 /* degrees of the factors tried */
#endif
#ifndef MDEG
#define MDEG 8
#endif
/* libc's search, on the real table */
void *pm_bsearch(const void *key, const void *base, size_t n, size_t size, int (*cmp)(const void *, const void *));
void *pm_bsearch(const void *key, const void *base, size_t n, size_t size, int (*cmp)(const void *, const void *)) {
	MODEL(size == sizeof(polynomial_t), "the table of polynomials");
	const polynomial_t *t = base;
#ifdef ENDS
	/* a size beyond an end of the sorted table (its order is the other jobs' business) */
	P(cmp(key, &t[0]) < 0 || cmp(key, &t[n - 1]) > 0, "no entry for a size outside the table");
	return NULL;
#endif
	/* the sizes are asked for in order: walk along the table, which must be sorted */
	static const polynomial_t *seen[4];
	static size_t at[4];
	int k = 0;
	while (k < 3 && seen[k] && seen[k] != t) k++;
	if (!seen[k]) {
		size_t lo = 0, hi = n;
		for (int i = 0; i < 16 && lo < hi; i++) {
			size_t mid = (lo + hi) / 2;
			if (cmp(key, &t[mid]) <= 0) hi = mid;
			else lo = mid + 1;
		}
		seen[k] = t;
		at[k] = lo;
	}
	MODEL(seen[k] == t, "at most four tables");
	int c = -1;
	while (at[k] < n && (c = cmp(key, &t[at[k]])) > 0) {
		P(at[k] + 1 >= n || cmp(&t[at[k]], &t[at[k] + 1]) < 0, "the table is sorted");
		at[k]++;
	}
	return at[k] < n && c == 0 ? (void *)&t[at[k]] : NULL;
}
#define ROWS (MHI - MLO + 1)
static unsigned short tabrow[ROWS][4];
static ulong tabdeg(ulong g) { ulong d = 0; for (ulong i = 1; i <= GDEG; i++) if ((g >> i) & 1) d = i; return d; }
static unsigned mulx(unsigned r, unsigned g, unsigned top) { r <<= 1; return (r & top) ? r ^ g : r; }
/* x^e mod g, whose leading term is top */
static unsigned xpow(unsigned e, unsigned g, unsigned top) {
	unsigned r = 1;
	for (int i = 13; i >= 0; i--) {
		unsigned s = 0;
		for (int k = 0; k < GDEG; k++) if ((r >> k) & 1) s |= 1u << (2 * k);
		/* reduce a square of degree below 2 GDEG: shift the modulus down from the top */
		for (int k = GDEG - 1; k >= 0; k--) if (s & (top << k)) s ^= g << k;
		r = s;
		if ((e >> i) & 1) r = mulx(r, g, top);
	}
	return r;
}
void h_table(void) {
	/* the whole range of sizes through the real search: constants for the solver */
	for (ulong m = MLO; m <= MHI; m++) {
		const polynomial_t *p = poly_find(m);
		P(poly_exists(m) && p != NULL, "a polynomial for every size");
		tabrow[m - MLO][0] = (unsigned short)p->m;
		tabrow[m - MLO][1] = (unsigned short)p->e1;
		tabrow[m - MLO][2] = (unsigned short)p->e2;
		tabrow[m - MLO][3] = (unsigned short)p->e3;
	}
	ulong i = nd_range(0, ROWS - 1), g = nd_bits(GDEG + 1);
	unsigned m = tabrow[i][0], a = tabrow[i][1], b = tabrow[i][2], c = tabrow[i][3];
	P(m == MLO + i, "of the degree asked for");
	P(a > 0 && a < m && b < m && c < m, "middle terms between the two ends");
	P((b == 0 && c == 0) || (b > 0 && c > 0 && a != b && b != c && a != c), "a trinomial or a pentanomial");
	P((m & 1) || (a & 1) || (b & 1) || (c & 1), "not a square");
	if (!b) {
		/* Swan: when a trinomial has an even number of factors (k even or the other way round for its reciprocal) */
		unsigned k = (m & 1) && (a & 1) ? m - a : a;
		bool even;
		if (!(m & 1)) even = m != 2 * k && ((m / 2) * k) % 4 < 2;
		else if ((2 * m) % k) even = m % 8 == 3 || m % 8 == 5;
		else even = m % 8 == 1 || m % 8 == 7;
		P(!even, "not an even number of factors");
	}
	/* a factor: a polynomial with a constant term, of degree up to half of m */
	ulong d = tabdeg(g);
	ASSUME((g & 1) && d >= 1 && 2 * d <= m);
	unsigned top = 1u << d;
	unsigned f = 1 ^ xpow(m, (unsigned)g, top) ^ xpow(a, (unsigned)g, top);
	if (b) f ^= xpow(b, (unsigned)g, top) ^ xpow(c, (unsigned)g, top);
	P((f & (top - 1)) != 0, "no factor of small degree");
	REACH("factor tried");
}
void h_outside(void) {
	ulong m = nd_range(0, 100000);
	ASSUME(m < 2 || m > 10000);
	P(!poly_exists(m) && poly_find(m) == NULL, "no polynomial outside the table");
	REACH("outside");
}
/* ---- the field built from an entry ------------------------------------------------- */
#ifdef GENJOB
static ulong mask_from(GEN x) {
	ulong m = 0;
	for (long i = 0; i <= MDEG; i++) if (pm_v(gel(x, i + 2)) & 1) m |= 1UL << i;
	return m;
}
GEN gtopolyrev(GEN v, long var) {
	(void)var;
	P(typ(v) == t_VEC && lg(v) == MDEG + 2, "one coefficient for each power up to the degree");
	GEN z = cgetg(MDEG + 3, t_POL);
	z[1] = (long)evalsigne(1);
	for (long i = 1; i <= MDEG + 1; i++) gel(z, i + 1) = gel(v, i);
	return z;
}
GEN gmul(GEN x, GEN y) {
	P(typ(x) == t_POL && typ(y) == t_INTMOD && pm_v(gel(y, 1)) == 2 && pm_v(gel(y, 2)) == 1, "a polynomial over F_2");
	return x;
}
GEN ffgen(GEN x, long var) { (void)var; return pm_mkff(2, mask_from(x)); }
void h_gen(void) {
	pm_watch_init();
	polynomial_t p;
	p.m = MDEG;
	p.e1 = (unsigned)nd_range(1, MDEG - 1);
	p.e2 = (unsigned)nd_range(0, MDEG - 1);
	p.e3 = (unsigned)nd_range(0, MDEG - 1);
	ASSUME((p.e2 == 0) == (p.e3 == 0));
	GEN f = poly_gen(&p);
	P(pm_live(f) && typ(f) == t_FFELT, "a field");
	P(pm_ffmod(f) == ((1UL << MDEG) | (1UL << p.e1) | (1UL << p.e2) | (1UL << p.e3) | 1UL), "of the polynomial of the entry");
	REACH("field");
}
#endif
