/* Number theory and randomness: exact below 2^10, otherwise memoised
 * nondeterministic facts constrained by the documented contract. */
#include "pm.h"
#include "pm_nt.h"
#include <stdlib.h>

static const unsigned char pm_ptab[128] = {172,40,138,160,32,138,32,40,136,130,8,2,162,40,2,128,8,10,160,32,136,32,40,128,162,0,8,128,40,130,2,8,130,160,32,10,32,0,136,34,0,8,2,40,130,128,32,136,32,32,2,2,40,128,130,8,2,162,8,128,128,8,136,32,0,10,0,32,8,32,8,10,2,8,130,130,32,10,128,0,138,32,40,0,34,8,8,32,32,128,128,32,136,128,32,2,34,0,8,32,0,10,160,40,128,0,32,138,0,32,138,0,0,136,128,0,2,34,8,2,128,8,130,128,32,0,34,40};
bool pm_isprime_v(val_t v) {
	if (v < 2) return false;
	MODEL(v < 1024, "primality below 1024");
	ulong u = (ulong)v & 1023;
	return (pm_ptab[u >> 3] >> (u & 7)) & 1;
}

long isprime(GEN x) {
	MODEL(typ(x) == t_INT, "isprime(int)");
	if (PM_HINT(pm_hint_prime) >= 0) {
		HINT(pm_isprime_v(pm_v(x)) == (pm_hint_prime == 1), "primality");
		return pm_hint_prime;
	}
	return pm_isprime_v(pm_v(x));
}
long BPSW_psp(GEN x) { return isprime(x); }
long ispseudoprime(GEN x, long f) { (void)f; return isprime(x); }

/* ---- random ---------------------------------------------------------------- */
/* an arbitrary integer in [lo, hi] */
val_t pm_between(val_t lo, val_t hi) {
	val_t d = hi - lo;
	MODEL(d >= 0, "nonempty range");
	if (d == 0) return lo;
	val_t r = lo + (val_t)(mag_t)nd_bits(PM_VBITS > 64 ? 64 : PM_VBITS);
	ASSUME(r >= lo && r <= hi);
	return r;
}
GEN genrand(GEN x) {
	if (x == NULL) return pm_mk(pm_between(0, 2147483647L));
	if (typ(x) == t_INT) {
		val_t v = pm_v(x);
		if (v <= 0) pm_fatal("random: invalid bound");
		return pm_mk(pm_between(0, v - 1));
	}
	if (typ(x) == t_FFELT) { /* uniform in the field of x */
		ulong T = pm_ffmod(x);
		ulong r = nd_bits(16);
		long d = 0;
		for (int i = 0; i < 17; i++) if ((T >> i) & 1) d = i;
		ASSUME((r >> d) == 0);
		return pm_mkff(r, T);
	}
	MODEL(typ(x) == t_VEC && lg(x) == 3, "genrand([a,b])");
	if (pm_v(gel(x, 2)) < pm_v(gel(x, 1))) pm_fatal("random: empty range");
#ifdef PM_COINS
	/* draws from [0, 1] follow a script, so that what depends on them has a
	 * constant shape; one job per script covers the draws */
	if (pm_v(gel(x, 1)) == 0 && pm_v(gel(x, 2)) == 1) {
		static const int script[] = {PM_COINS};
		static unsigned nth = 0;
		MODEL(nth < sizeof script / sizeof *script, "coin script");
		return script[nth++] ? pm_mk(1) : gen_0;
	}
#endif
	return pm_mk(pm_between(pm_v(gel(x, 1)), pm_v(gel(x, 2))));
}
GEN randomi(GEN n) { return genrand(n); }
GEN randomprime(GEN x) { /* a prime in [a, b], documented */
	MODEL(typ(x) == t_VEC && lg(x) == 3, "randomprime([a,b])");
	val_t p = pm_between(pm_v(gel(x, 1)), pm_v(gel(x, 2)));
	ASSUME(pm_isprime_v(p));
	return pm_mk(p);
}
static val_t nxt(val_t v) {
	for (int i = 0; i < 40; i++) {
		if (pm_isprime_v(v + i)) return v + i;
	}
	MODEL(0, "prime gap");
	return v;
}
GEN nextprime(GEN x) { return pm_mk(nxt(pm_v(x) < 2 ? (val_t)2 : pm_v(x))); }
ulong unextprime(ulong n) { return (ulong)nxt(n < 2 ? (val_t)2 : pm_ul(n)); }
int uisprime(ulong n) { return pm_isprime_v(pm_ul(n)); }

/* ---- factorisation ----------------------------------------------------------- */
static struct pm_fac pm_facs[PM_NFAC];
static int pm_nfacs;
val_t pm_reg_factor(int k, const val_t *p, const int *e) {
	struct pm_fac *f = &pm_facs[pm_nfacs++];
	val_t n = 1;
	f->k = k;
	for (int i = 0; i < k; i++) {
		f->p[i] = p[i];
		f->e[i] = e[i];
		ASSUME(pm_isprime_v(p[i]));
		if (i) ASSUME(p[i - 1] < p[i]);
		for (int j = 0; j < e[i]; j++) {
			dbl_t q = (dbl_t)(mag_t)n * (dbl_t)(mag_t)p[i];
			ASSUME((q >> PM_VBITS) == 0);
			n = (val_t)q;
		}
	}
	f->n = n;
	return n;
}
static GEN fac_mat(int k, const val_t *p, const int *e) {
	GEN P_ = cgetg(k + 1, t_COL), E_ = cgetg(k + 1, t_COL);
	for (int i = 0; i < k; i++) {
		gel(P_, i + 1) = pm_mk(p[i]);
		gel(E_, i + 1) = pm_mk((val_t)e[i]);
	}
	return mkmat2(P_, E_);
}
/* exact trial division, n < 2^8 (at most 4 distinct primes) */
static GEN fac_small(val_t n) {
	static const unsigned char sp[] = {2, 3, 5, 7, 11, 13};
	val_t p[5];
	int e[5], k = 0;
	MODEL(n >= 1 && n < 256, "factorisation of small integers only");
	unsigned m = (unsigned)n & 255;
	for (int i = 0; i < 6; i++) {
		int c = 0;
		for (int j = 0; j < 8; j++)
			if (m % sp[i] == 0 && m > 0) { m = (m / sp[i]) & 255; c++; }
			else break;
		if (c) { p[k] = sp[i]; e[k] = c; k++; }
	}
	if (m > 1) { p[k] = (val_t)m; e[k] = 1; k++; }
	GEN P_ = cgetg(6, t_COL), E_ = cgetg(6, t_COL);
	for (int i = 0; i < 5; i++) {
		gel(P_, i + 1) = i < k ? pm_mk(p[i]) : gen_1;
		gel(E_, i + 1) = i < k ? pm_mk((val_t)e[i]) : gen_0;
	}
	P_[0] = (long)(evaltyp(t_COL) | (ulong)(k + 1));
	E_[0] = (long)(evaltyp(t_COL) | (ulong)(k + 1));
	return mkmat2(P_, E_);
}
GEN Z_factor(GEN n) {
	if (typ(n) != t_INT) pm_fatal("Z_factor: not an integer");
	val_t v = pm_v(n);
	if (pm_nfacs == 1) { /* keep the shape constant */
		MODEL(pm_facs[0].n == v, "factorisation of the registered integer");
		return fac_mat(pm_facs[0].k, pm_facs[0].p, pm_facs[0].e);
	}
	for (int i = 0; i < pm_nfacs; i++) {
		if (pm_facs[i].n == v) return fac_mat(pm_facs[i].k, pm_facs[i].p, pm_facs[i].e);
	}
	return fac_small(v);
}
GEN factor(GEN n) { return Z_factor(n); }
GEN Z_factor_until(GEN n, GEN lim) { (void)lim; return Z_factor(n); }
GEN absZ_factor(GEN n) { return Z_factor(absi(n)); }

val_t pm_gcd(val_t a, val_t b) {
	if (a < 0) a = -a;
	if (b < 0) b = -b;
#ifdef VCBMC
	typedef unsigned __CPROVER_bitvector[PM_GCDBITS] g_t;
#else
	typedef unsigned _BitInt(PM_GCDBITS) g_t;
#endif
	MODEL((a >> PM_GCDBITS) == 0 && (b >> PM_GCDBITS) == 0, "gcd operands");
	g_t x = (g_t)a, y = (g_t)b;
	for (int i = 0; i < PM_GCD_STEPS; i++) {
		if (y == 0) break;
		g_t t = (g_t)(x % y);
		x = y;
		y = t;
	}
	MODEL(y == 0, "gcd steps");
	return (val_t)(mag_t)x;
}
GEN gcdii(GEN a, GEN b) { return pm_mk(pm_gcd(pm_v(a), pm_v(b))); }
GEN ggcd(GEN a, GEN b) { return gcdii(a, b); }

/* ---- modular ------------------------------------------------------------------- */
#ifndef ABS /* a harness may observe it instead */
GEN Fp_invsafe(GEN a, GEN m) {
	val_t p = pm_v(m), x = pm_mod(pm_v(a), p);
	if (pm_gcd(x, p) != 1) return NULL;
	val_t r = pm_between(0, p - 1);
	ASSUME(pm_mulmod(x, r, p) == (p == 1 ? (val_t)0 : (val_t)1));
	return pm_mk(r);
}
#endif
GEN Fp_inv(GEN a, GEN m) {
	GEN r = Fp_invsafe(a, m);
	if (!r) pm_fatal("impossible inverse");
	return r;
}
GEN Fp_div(GEN a, GEN b, GEN m) { return Fp_mul(a, Fp_inv(b, m), m); }
/* multiplicative order of an invertible class; the modulus is small */
GEN znorder(GEN x, GEN o) {
	(void)o;
	MODEL(typ(x) == t_INTMOD, "znorder(intmod)");
	val_t m = pm_v(gel(x, 1)), a = pm_mod(pm_v(gel(x, 2)), m);
	if (pm_gcd(a, m) != 1) pm_fatal("znorder: not invertible");
	val_t r = m == 1 ? (val_t)0 : (val_t)1, w = r;
	for (int k = 1; k <= PM_ZNORDER_MAX; k++) {
		r = pm_mulmod(r, a, m);
		if (r == w) return pm_mk((val_t)k);
	}
	MODEL(0, "znorder too large");
	return gen_0;
}
/* quadratic character modulo an odd prime p, memoised nondeterministic with
 * the facts that matter: 0 at multiples of p, 1 at a registered square */
#ifndef PM_OWN_KRONECKER
static struct { val_t a, p, s; } pm_kr[PM_NKR];
static int pm_nkr;
long kronecker(GEN x, GEN y) {
	val_t p = pm_v(y), a = pm_mod(pm_v(x), p);
	if (a == 0) return 0;
	if (a == 1) return 1;
	for (int i = 0; i < pm_nkr; i++)
		if (pm_kr[i].a == a && pm_kr[i].p == p) return (long)pm_kr[i].s;
	MODEL(pm_nkr < PM_NKR, "quadratic characters");
	val_t s = nd_bool() ? 1 : -1;
	pm_kr[pm_nkr].a = a;
	pm_kr[pm_nkr].p = p;
	pm_kr[pm_nkr].s = s;
	pm_nkr++;
	return (long)s;
}
#endif

/* ---- text ------------------------------------------------------------------------ */
/* strtoi: digits up to the first other character, 0x and 0b prefixes, no sign
 * (checked against libpari 2.15: "-5" and "+7" give 0, "12abc" gives 12) */
GEN strtoi(const char *s) {
	val_t v = 0;
	unsigned base = 10;
	if (s[0] == '0' && (s[1] == 'x' || s[1] == 'X')) { base = 16; s += 2; }
	else if (s[0] == '0' && (s[1] == 'b' || s[1] == 'B')) { base = 2; s += 2; }
	for (; *s; s++) {
		unsigned c = (unsigned char)*s, d;
		if (c >= '0' && c <= '9') d = c - '0';
		else if (c >= 'a' && c <= 'f') d = c - 'a' + 10;
		else if (c >= 'A' && c <= 'F') d = c - 'A' + 10;
		else break;
		if (d >= base) break;
		dbl_t w = (dbl_t)(mag_t)v * base + d;
		ASSUME((w >> PM_VBITS) == 0);
		v = (val_t)w;
	}
	return pm_mk(v);
}
GEN addprimes(GEN v) { return v; } /* only primes factorisation later tries first */
