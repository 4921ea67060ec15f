#include "pm.h"
#include <stdio.h>
#include <stdlib.h>

bool pm_isvec(long t) {
	return t == t_VEC || t == t_COL || t == t_MAT || t == t_INTMOD || t == t_FRAC || t == t_FFELT || t == t_POL || t == t_POLMOD || t == t_COMPLEX || t == t_QUAD || t == t_RFRAC;
}
static long first_comp(long t) { return (t == t_POL || t == t_FFELT) ? 2 : 1; }

#ifdef PM_FLAT
/* components are shared: they are immutable, and their lifetime is not tracked */
static GEN flat(GEN x, bool clone) {
	MODEL(lg(x) <= PM_VCAP, "size of a copied object");
	GEN z = clone ? (GEN)malloc(PM_VCAP * sizeof(long)) : new_chunk(PM_VCAP);
	for (int i = 1; i < PM_VCAP; i++) z[i] = x[i];
	z[0] = (long)((ulong)x[0] & ~CLONEBIT);
	return z;
}
#define leaf_with flat
#define copy_with flat
#define unclone_rec free
#else
static GEN leaf_with(GEN x, bool clone) {
	size_t cap = (size_t)lg(x);
	GEN z = clone ? (GEN)malloc(cap * sizeof(long)) : new_chunk(cap);
	for (size_t i = 1; i < cap; i++) z[i] = x[i];
	z[0] = (long)((ulong)x[0] & ~CLONEBIT);
	return z;
}
static GEN int_with(GEN x, bool clone) {
	GEN z = clone ? (GEN)malloc(PMLG * sizeof(long)) : new_chunk(PMLG);
	z[0] = (long)(evaltyp(t_INT) | PMLG);
	for (int i = 1; i < PMLG; i++) z[i] = x[i];
	return z;
}
/* Nesting is bounded (curve -> object slots -> generators -> point -> integer
 * is the deepest structure), so the recursion is unrolled by hand. */
static GEN copy0(GEN x, bool clone) {
	if (typ(x) == t_INT) return int_with(x, clone);
	MODEL(!pm_isvec(typ(x)), "nesting depth of a copied object");
	return leaf_with(x, clone);
}
static bool constant(GEN x) { return x == gen_0 || x == gen_1 || x == gen_2 || x == gen_m1; }
static void unclone0(GEN x) { if (!constant(x)) free(x); }
#define DEPTH(n, m)                                                                   \
	static GEN copy##n(GEN x, bool clone) {                                           \
		long t = typ(x);                                                              \
		if (t == t_INT) return int_with(x, clone);                                    \
		if (!pm_isvec(t)) return leaf_with(x, clone);                                 \
		size_t cap = (size_t)PM_CAP(x);                                               \
		GEN z = clone ? (GEN)malloc(cap * sizeof(long)) : new_chunk(cap);             \
		z[0] = (long)((ulong)x[0] & ~CLONEBIT);                                       \
		if (first_comp(t) == 2) z[1] = x[1];                                          \
		PM_EACH(i, first_comp(t), x) gel(z, i) = copy##m(gel(x, i), clone);           \
		return z;                                                                     \
	}                                                                                 \
	static void unclone##n(GEN x) {                                                   \
		if (constant(x)) return;                                                      \
		long t = typ(x);                                                              \
		if (t != t_INT && pm_isvec(t))                                                \
			PM_EACH(i, first_comp(t), x) unclone##m(gel(x, i));                       \
		free(x);                                                                      \
	}
DEPTH(1, 0)
DEPTH(2, 1)
DEPTH(3, 2)
#ifdef PM_DEEP
DEPTH(4, 3)
#define copy_with copy4
#define unclone_rec unclone4
#else
#define copy_with copy3
#define unclone_rec unclone3
#endif
#endif
GEN gcopy(GEN x) { return copy_with(x, false); }
GEN gcopy_lg(GEN x, long n) { MODEL(n == lg(x), "gcopy_lg"); return gcopy(x); }
GEN leafcopy(GEN x) { return leaf_with(x, false); }
GEN shallowcopy(GEN x) { return leaf_with(x, false); }
long pm_clone_live = 0; /* clones made and not yet given back */
GEN gclone(GEN x) {
	pm_clone_live++;
	GEN z = copy_with(x, true);
	z[0] = (long)((ulong)z[0] | CLONEBIT);
	return z;
}
GEN gcloneref(GEN x) { return gclone(x); }
void gunclone(GEN x) {
	P(isclone(x), "gunclone() of something that is not a clone");
	pm_clone_live--;
	unclone_rec(x);
}
void gunclone_deep(GEN x) { gunclone(x); }
void guncloneNULL(GEN x) { if (x) gunclone(x); }

static bool live1(GEN x) {
	if (!pm_live(x)) return false;
	long t = typ(x);
	if (t != t_INT && pm_isvec(t)) {
		long f = first_comp(t), l = lg(x);
		for (long i = f; i < f + 3; i++)
			if (i < l && !pm_live(gel(x, i))) return false;
	}
	return true;
}
bool pm_live_deep(GEN x) { /* two levels: enough for numbers and points */
	if (!pm_live(x)) return false;
	long t = typ(x);
	if (t != t_INT && pm_isvec(t)) {
		long f = first_comp(t), l = lg(x);
		for (long i = f; i < f + 3; i++)
			if (i < l && !live1(gel(x, i))) return false;
	}
	return true;
}

/* gerepile family: result is copied to the top of the popped region.  The
 * model puts the copy in a fresh chunk whose position lies just below av. */
static GEN repile(pari_sp av, GEN x) {
	GEN y = copy_with(x, true); /* keep it aside while the stack is popped */
	avma = av;
	(void)new_chunk(0);         /* lets the watcher see the pop */
	GEN z = copy_with(y, false);
	unclone_rec(y);
	return z;
}
GEN gerepilecopy(pari_sp av, GEN x) { return repile(av, x); }
GEN gerepileupto(pari_sp av, GEN x) { return repile(av, x); }
GEN gerepileuptoint(pari_sp av, GEN x) { return repile(av, x); }
GEN gerepileuptoleaf(pari_sp av, GEN x) { return repile(av, x); }
GEN gerepile(pari_sp av, pari_sp tetpil, GEN x) { (void)tetpil; return repile(av, x); }
void gerepileall(pari_sp av, int n, ...) {
	va_list ap;
	GEN *ptr[8], tmp[8];
	MODEL(n <= 8, "gerepileall n<=8");
	va_start(ap, n);
	for (int i = 0; i < n; i++) {
		ptr[i] = va_arg(ap, GEN *);
		tmp[i] = copy_with(*ptr[i], true);
	}
	va_end(ap);
	avma = av;
	(void)new_chunk(0);
	for (int i = 0; i < n; i++) {
		*ptr[i] = copy_with(tmp[i], false);
		unclone_rec(tmp[i]);
	}
}
void gerepilecoeffs(pari_sp av, GEN x, int n) { (void)av; (void)x; (void)n; }

/* ---- vectors ------------------------------------------------------------ */
static long vlen(GEN x) {
	switch (typ(x)) {
		case t_INT: return lgefint(x) - 2;
		case t_STR: return (long)strlen((char *)(x + 1));
		default: return lg(x) - first_comp(typ(x)) - (0);
	}
}
long glength(GEN x) {
	if (PM_HINT(pm_hint_glen) >= 0) {
		HINT(typ(x) != t_INT && lg(x) - first_comp(typ(x)) == pm_hint_glen, "vector length");
		return pm_hint_glen;
	}
	return vlen(x);
}
GEN mkvec(GEN a) { GEN z = cgetg(2, t_VEC); gel(z, 1) = a; return z; }
GEN mkvec2(GEN a, GEN b) { GEN z = cgetg(3, t_VEC); gel(z, 1) = a; gel(z, 2) = b; return z; }
GEN mkvec3(GEN a, GEN b, GEN c) { GEN z = cgetg(4, t_VEC); gel(z, 1) = a; gel(z, 2) = b; gel(z, 3) = c; return z; }
GEN mkvec4(GEN a, GEN b, GEN c, GEN d) { GEN z = cgetg(5, t_VEC); gel(z, 1) = a; gel(z, 2) = b; gel(z, 3) = c; gel(z, 4) = d; return z; }
GEN mkvec5(GEN a, GEN b, GEN c, GEN d, GEN e) { GEN z = cgetg(6, t_VEC); gel(z, 1) = a; gel(z, 2) = b; gel(z, 3) = c; gel(z, 4) = d; gel(z, 5) = e; return z; }
GEN mkveccopy(GEN a) { return mkvec(gcopy(a)); }
GEN mkvec2copy(GEN a, GEN b) { return mkvec2(gcopy(a), gcopy(b)); }
GEN mkcol(GEN a) { GEN z = mkvec(a); settyp(z, t_COL); return z; }
GEN mkcol2(GEN a, GEN b) { GEN z = mkvec2(a, b); settyp(z, t_COL); return z; }
GEN mkmat2(GEN a, GEN b) { GEN z = mkvec2(a, b); settyp(z, t_MAT); return z; }
GEN mkvecsmall(long a) { GEN z = cgetg(2, t_VECSMALL); z[1] = a; return z; }
GEN mkvecsmall2(long a, long b) { GEN z = cgetg(3, t_VECSMALL); z[1] = a; z[2] = b; return z; }
GEN mkintmod(GEN x, GEN y) { GEN z = cgetg(3, t_INTMOD); gel(z, 1) = y; gel(z, 2) = x; return z; }
GEN mkfrac(GEN x, GEN y) { GEN z = cgetg(3, t_FRAC); gel(z, 1) = x; gel(z, 2) = y; return z; }
GEN mkintmodu(ulong x, ulong y) { return mkintmod(utoi(x), utoi(y)); }
GEN zerovec(long n) { GEN z = cgetg(n + 1, t_VEC); for (long i = 1; i <= n; i++) gel(z, i) = gen_0; return z; }
GEN zerocol(long n) { GEN z = zerovec(n); settyp(z, t_COL); return z; }
GEN zero_zv(long n) { GEN z = cgetg(n + 1, t_VECSMALL); for (long i = 1; i <= n; i++) z[i] = 0; return z; }
GEN const_vec(long n, GEN x) { GEN z = cgetg(n + 1, t_VEC); for (long i = 1; i <= n; i++) gel(z, i) = x; return z; }
GEN gtovecsmall0(GEN x, long n) { (void)x; return zero_zv(n < 0 ? -n : n); }
GEN gtovec(GEN x) {
	long t = typ(x);
	if (t == t_VEC || t == t_COL) {
		GEN z = gcopy(x);
		settyp(z, t_VEC);
		return z;
	}
	if (t == t_POL) { /* leading coefficient first */
		long l = lg(x) - 2;
		GEN z = cgetg(l + 1, t_VEC);
		for (long i = 1; i <= l; i++) gel(z, i) = gcopy(gel(x, l + 2 - i));
		return z;
	}
	return mkvec(gcopy(x));
}
GEN gtovec0(GEN x, long n) {
	long m = n < 0 ? -n : n;
	if (typ(x) == t_INT) {
		GEN z = zerovec(m);
		if (m > 0) gel(z, n < 0 ? m : 1) = gcopy(x);
		return z;
	}
	GEN v = gtovec(x), z = zerovec(m);
	long l = vlen(v);
	for (long i = 1; i <= m; i++)
		if (i <= l) gel(z, n < 0 ? m - l + i : i) = gel(v, n < 0 ? l - m + i : i);
	return z;
}
GEN gtovecrev(GEN x) { GEN v = gtovec(x); long l = vlen(v); for (long i = 1; i <= l / 2; i++) { GEN t = gel(v, i); gel(v, i) = gel(v, l + 1 - i); gel(v, l + 1 - i) = t; } return v; }
GEN vec_append(GEN v, GEN s) {
	long l = lg(v);
#ifdef PM_FLAT
	MODEL(l < PM_VCAP, "length of a vector");
	GEN z = new_chunk(PM_VCAP); /* of constant size */
	z[0] = (long)(evaltyp(t_VEC) | (ulong)(l + 1));
	for (long i = 1; i < PM_VCAP; i++) if (i < l) z[i] = v[i]; else if (i == l) gel(z, i) = s;
#else
	GEN z = cgetg(l + 1, typ(v));
	for (long i = 1; i < l; i++) gel(z, i) = gel(v, i);
	gel(z, l) = s;
#endif
	return z;
}
GEN vec_prepend(GEN v, GEN s) {
	long l = lg(v);
	GEN z = cgetg(l + 1, typ(v));
	gel(z, 1) = s;
	for (long i = 1; i < l; i++) gel(z, i + 1) = gel(v, i);
	return z;
}
GEN vec_shorten(GEN v, long n) {
	GEN z = cgetg(n + 1, typ(v));
	for (long i = 1; i <= n; i++) gel(z, i) = gel(v, i);
	return z;
}
GEN vec_lengthen(GEN v, long n) {
	GEN z = cgetg(n + 1, typ(v));
	for (long i = 1; i < lg(v); i++) gel(z, i) = gel(v, i);
	return z;
}
GEN gconcat(GEN a, GEN b) { /* vectors */
	long n = vlen(a), m = vlen(b);
	GEN z = cgetg(n + m + 1, t_VEC);
	for (long i = 1; i <= n; i++) gel(z, i) = gel(a, i);
	for (long i = 1; i <= m; i++) gel(z, n + i) = gel(b, i);
	return z;
}
GEN shallowconcat(GEN a, GEN b) { return gconcat(a, b); }

/* ---- finite fields ------------------------------------------------------ */
GEN pm_mkff(ulong poly, ulong T) {
	GEN z = cgetg(5, t_FFELT);
	z[1] = 2; /* t_FF_F2xq */
	gel(z, 2) = pm_mk((val_t)poly);
	gel(z, 3) = pm_mk((val_t)T);
	gel(z, 4) = gen_2;
	return z;
}
ulong pm_ffpoly(GEN x) { return (ulong)pm_v(gel(x, 2)); }
ulong pm_ffmod(GEN x) { return (ulong)pm_v(gel(x, 3)); }
static ulong f2deg(ulong a) { ulong d = 0; for (ulong i = 0; i < 64; i++) if ((a >> i) & 1) d = i; return d; }
static ulong f2red(ulong a, ulong T) {
	ulong d = f2deg(T);
	for (long i = 63; i >= 0; i--)
		if ((ulong)i >= d && ((a >> i) & 1)) a ^= T << ((ulong)i - d);
	return a;
}
static ulong f2mul(ulong a, ulong b, ulong T) {
	ulong r = 0;
	for (int i = 0; i < 32; i++) if ((b >> i) & 1) r ^= a << i;
	return f2red(r, T);
}
GEN FF_1(GEN x) { return pm_mkff(1, pm_ffmod(x)); }
GEN FF_zero(GEN x) { return pm_mkff(0, pm_ffmod(x)); }
GEN FF_p_i(GEN x) { (void)x; return gen_2; }
GEN FF_p(GEN x) { (void)x; return gen_2; }
long FF_f(GEN x) { return (long)f2deg(pm_ffmod(x)); }

static GEN pol_from_mask(ulong m, bool modulus) {
	ulong l = 0;
	if (!modulus && PM_HINT(pm_hint_pol) >= 0) {
		l = (ulong)pm_hint_pol;
		HINT((m >> l) == 0 && (l == 0 || ((m >> (l - 1)) & 1)), "degree of an element");
		GEN y = cgetg((long)l + 2, t_POL);
		y[1] = (long)evalsigne(l ? 1 : 0);
		for (ulong i = 0; i < l; i++) gel(y, i + 2) = ((m >> i) & 1) ? gen_1 : gen_0;
		return y;
	}
	for (ulong i = 0; i < 64; i++) if ((m >> i) & 1) l = i + 1;
	GEN z = new_chunk(64 + 2);
	z[0] = (long)(evaltyp(t_POL) | (l + 2));
	z[1] = (long)evalsigne(m ? 1 : 0);
	for (ulong i = 0; i < 64; i++) if (i < l) gel(z, i + 2) = ((m >> i) & 1) ? gen_1 : gen_0;
	return z;
}
GEN FF_to_FpXQ(GEN x) { return pol_from_mask(pm_ffpoly(x), false); }
GEN FF_to_FpXQ_i(GEN x) { return pol_from_mask(pm_ffpoly(x), false); }
GEN FF_mod(GEN x) { return pol_from_mask(pm_ffmod(x), false); }
GEN member_mod(GEN x) { MODEL(typ(x) == t_FFELT, "member_mod"); return pol_from_mask(pm_ffmod(x), true); }
static ulong mask_of(GEN pol, ulong p) {
	ulong m = 0;
	(void)p;
	for (long i = 2; i < lg(pol); i++) {
		GEN c = gel(pol, i);
		if (typ(c) == t_INTMOD) c = gel(c, 2);
		if ((ulong)pm_mod(pm_v(c), 2)) m |= 1UL << (i - 2);
	}
	return m;
}
GEN Fq_to_FF(GEN x, GEN ff) {
	if (typ(x) == t_INT) return pm_mkff((ulong)pm_mod(pm_v(x), 2), pm_ffmod(ff));
	/* libpari stores the polynomial as given */
	return pm_mkff(mask_of(x, 2), pm_ffmod(ff));
}
GEN ffgen(GEN T, long v) { (void)v; MODEL(typ(T) == t_POL, "ffgen(pol)"); return pm_mkff(2, mask_of(T, 2)); }
long degree(GEN x) { MODEL(typ(x) == t_POL, "degree(pol)"); return lg(x) - 3; }
long degpol(GEN x) { return lg(x) - 3; }
GEN polcoef(GEN x, long n, long v) { (void)v; return (n < 0 || n > lg(x) - 3) ? gen_0 : gcopy(gel(x, n + 2)); }
GEN gtopolyrev(GEN x, long v) { /* vector, constant term first */
	(void)v;
	long l = vlen(x), top = 0;
	if (PM_HINT(pm_hint_pol) >= 0 && l >= pm_hint_pol) {
		top = pm_hint_pol;
		for (long i = 1; i <= l; i++) HINT(i < top || gequal0(gel(x, i)) == (i > top), "degree of a polynomial");
	} else
	for (long i = 1; i <= l; i++) if (!gequal0(gel(x, i))) top = i;
	GEN z = cgetg(l + 2, t_POL);
	z[0] = (long)(evaltyp(t_POL) | (ulong)(top + 2));
	z[1] = (long)evalsigne(top ? 1 : 0);
	for (long i = 1; i <= l; i++) if (i <= top) gel(z, i + 1) = gel(x, i);
	return z;
}
GEN gtopoly(GEN x, long v) { /* vector, leading term first */
	(void)v;
	if (typ(x) == t_VECSMALL) {
		long n = lg(x) - 1;
		GEN w = cgetg(n + 1, t_VEC);
		for (long i = 1; i <= n; i++) gel(w, i) = stoi(x[i]);
		return gtopolyrev(gtovecrev(w), v);
	}
	return gtopolyrev(gtovecrev(x), v);
}
GEN digits(GEN n, GEN b) {
	MODEL(pm_v(b) == 2, "digits base 2 only");
	ulong m = (ulong)pm_v(absi(n));
	ulong l = 0;
	if (PM_HINT(pm_hint_pol) >= 0) {
		l = (ulong)pm_hint_pol;
		HINT((m >> l) == 0 && (l == 0 || ((m >> (l - 1)) & 1)), "number of binary digits");
		GEN y = cgetg((long)l + 1, t_VEC);
		for (ulong i = 0; i < l; i++) gel(y, l - i) = ((m >> i) & 1) ? gen_1 : gen_0;
		return y;
	}
	for (ulong i = 0; i < 64; i++) if ((m >> i) & 1) l = i + 1;
	GEN z = new_chunk(65);
	z[0] = (long)(evaltyp(t_VEC) | (l + 1));
	for (ulong i = 0; i < 64; i++) if (i < l) gel(z, l - i) = ((m >> i) & 1) ? gen_1 : gen_0;
	return z;
}
GEN fromdigits(GEN v, GEN b) {
	MODEL(pm_v(b) == 2, "fromdigits base 2 only");
	val_t r = 0;
	for (long i = 1; i < lg(v); i++) {
		GEN c = gel(v, i);
		if (typ(c) == t_INTMOD) c = gel(c, 2);
		r = r * 2 + pm_v(c);
	}
	return pm_mk(r);
}

/* ---- modular integers ---------------------------------------------------- */
GEN Fp_red(GEN x, GEN p) { return modii(x, p); }
GEN Fp_add(GEN a, GEN b, GEN m) { return pm_mk(pm_mod(pm_v(a) + pm_v(b), pm_v(m))); }
GEN Fp_sub(GEN a, GEN b, GEN m) { return pm_mk(pm_mod(pm_v(a) - pm_v(b), pm_v(m))); }
GEN Fp_neg(GEN a, GEN m) { return pm_mk(pm_mod(-pm_v(a), pm_v(m))); }
GEN Fp_mul(GEN a, GEN b, GEN m) { return pm_mk(pm_mulmod(pm_v(a), pm_v(b), pm_v(m))); }
GEN Fp_muls(GEN a, long b, GEN m) { return pm_mk(pm_mulmod(pm_v(a), (val_t)b, pm_v(m))); }
GEN Fp_mulu(GEN a, ulong b, GEN m) { return pm_mk(pm_mulmod(pm_v(a), (val_t)b, pm_v(m))); }
GEN Fp_sqr(GEN a, GEN m) { return Fp_mul(a, a, m); }
GEN Fp_to_mod(GEN x, GEN p) { return mkintmod(modii(x, p), p); }
GEN gmodulo(GEN x, GEN y) {
	MODEL(typ(x) == t_INT && typ(y) == t_INT, "gmodulo(int,int)");
	if (pm_v(y) == 0) pm_fatal("gmodulo by 0");
	GEN z = cgetg(3, t_INTMOD);
	gel(z, 1) = absi(y);
	gel(z, 2) = modii(x, y);
	return z;
}
GEN gmodulsg(long x, GEN y) { return gmodulo(stoi(x), y); }
GEN gmodulss(long x, long y) { return gmodulo(stoi(x), stoi(y)); }
GEN gmodgs(GEN x, long y) { return modis(x, y); }
GEN gmod(GEN x, GEN y) { return modii(x, y); }
GEN lift(GEN x) {
	if (typ(x) == t_INTMOD) return gcopy(gel(x, 2));
	MODEL(typ(x) == t_INT, "lift");
	return gcopy(x);
}
GEN liftint(GEN x) { return lift(x); }
GEN centerlift(GEN x) { val_t v = pm_v(gel(x, 2)), m = pm_v(gel(x, 1)); return pm_mk(v > (m >> 1) ? v - m : v); }

/* ---- generic arithmetic: t_INT, t_INTMOD, t_FFELT(char 2) ---------------- */
enum { OP_ADD, OP_SUB, OP_MUL };
static val_t vop(int op, val_t a, val_t b) {
	if (op == OP_ADD) return a + b;
	if (op == OP_SUB) return a - b;
	return pm_v(mulii(pm_mk(a), pm_mk(b)));
}
static GEN garith(int op, GEN x, GEN y) {
	long tx = typ(x), ty = typ(y);
	if (tx == t_INT && ty == t_INT) return pm_mk(vop(op, pm_v(x), pm_v(y)));
	if (tx == t_INTMOD || ty == t_INTMOD) {
		GEN p = tx == t_INTMOD ? gel(x, 1) : gel(y, 1);
		MODEL((tx == t_INTMOD || tx == t_INT) && (ty == t_INTMOD || ty == t_INT), "INTMOD op");
		GEN a = tx == t_INTMOD ? gel(x, 2) : x, b = ty == t_INTMOD ? gel(y, 2) : y;
		if (tx == t_INTMOD && ty == t_INTMOD) MODEL(equalii(gel(x, 1), gel(y, 1)), "same modulus");
		val_t m = pm_v(p), r;
		if (op == OP_MUL) r = pm_mulmod(pm_v(a), pm_v(b), m);
		else r = pm_mod(op == OP_ADD ? pm_v(a) + pm_v(b) : pm_v(a) - pm_v(b), m);
		return mkintmod(pm_mk(r), p);
	}
	if (tx == t_FFELT || ty == t_FFELT) {
		ulong T = pm_ffmod(tx == t_FFELT ? x : y);
		ulong a = tx == t_FFELT ? pm_ffpoly(x) : (ulong)pm_mod(pm_v(x), 2);
		ulong b = ty == t_FFELT ? pm_ffpoly(y) : (ulong)pm_mod(pm_v(y), 2);
		return pm_mkff(op == OP_MUL ? f2mul(a, b, T) : (a ^ b), T);
	}
	MODEL(0, "generic arithmetic on this type");
	return gen_0;
}
static bool is_pol(GEN x) { return typ(x) == t_POL; }
GEN gadd(GEN x, GEN y) { return garith(OP_ADD, x, y); }
GEN gsub(GEN x, GEN y) { return garith(OP_SUB, x, y); }
GEN gmul(GEN x, GEN y) {
	if (is_pol(x) && typ(y) == t_INTMOD) { /* pol * Mod(1,2) */
		GEN z = cgetg(lg(x), t_POL);
		z[0] = x[0];
		z[1] = x[1];
		for (long i = 2; i < lg(x); i++) gel(z, i) = garith(OP_MUL, gel(x, i), y);
		return z;
	}
	return garith(OP_MUL, x, y);
}
GEN gsqr(GEN x) { return gmul(x, x); }
GEN gneg(GEN x) { return garith(OP_SUB, gen_0, x); }
GEN gaddsg(long a, GEN x) { return gadd(stoi(a), x); }
GEN gaddgs(GEN x, long a) { return gadd(x, stoi(a)); }
GEN gsubgs(GEN x, long a) { return gsub(x, stoi(a)); }
GEN gsubsg(long a, GEN x) { return gsub(stoi(a), x); }
GEN gmulsg(long a, GEN x) { return gmul(stoi(a), x); }
GEN gmulgs(GEN x, long a) { return gmul(x, stoi(a)); }
GEN gpowgs(GEN x, long n) {
	MODEL(n >= 0, "gpowgs n>=0");
	GEN r = typ(x) == t_INT ? gen_1 : typ(x) == t_INTMOD ? gmodulo(gen_1, gel(x, 1)) : FF_1(x);
	for (long i = 0; i < n; i++) r = gmul(r, x);
	return r;
}
GEN powiu(GEN x, ulong n) { return gpowgs(x, (long)n); }
GEN powis(GEN x, long n) { return gpowgs(x, n); }
GEN powuu(ulong x, ulong n) { return gpowgs(utoi(x), (long)n); }

int gequal0(GEN x) {
	switch (typ(x)) {
		case t_INT: return signe(x) == 0;
		case t_INTMOD: return signe(gel(x, 2)) == 0;
		case t_FFELT: return pm_ffpoly(x) == 0;
		case t_POL: return lg(x) == 2;
		case t_VEC: case t_COL: case t_MAT:
			for (long i = 1; i < lg(x); i++) if (!gequal0(gel(x, i))) return 0;
			return 1;
		default: MODEL(0, "gequal0"); return 0;
	}
}
int gequal1(GEN x) { return typ(x) == t_INT ? pm_v(x) == 1 : typ(x) == t_INTMOD ? pm_v(gel(x, 2)) == 1 : typ(x) == t_FFELT ? pm_ffpoly(x) == 1 : 0; }
int gequalm1(GEN x) {
	if (typ(x) == t_INT) return pm_v(x) == -1;
	if (typ(x) == t_INTMOD) return pm_v(gel(x, 2)) == pm_v(gel(x, 1)) - 1;
	return typ(x) == t_FFELT ? pm_ffpoly(x) == 1 : 0;
}
int isintzero(GEN x) { return typ(x) == t_INT && signe(x) == 0; }
int isint1(GEN x) { return typ(x) == t_INT && pm_v(x) == 1; }
int isintm1(GEN x) { return typ(x) == t_INT && pm_v(x) == -1; }
int gsigne(GEN x) { MODEL(typ(x) == t_INT, "gsigne(int)"); return (int)signe(x); }
bool pm_same(GEN x, GEN y) {
	long t = typ(x);
	if (t != typ(y)) return false;
	if (t == t_INT) return pm_v(x) == pm_v(y);
	if (lg(x) != lg(y)) return false;
	if (t == t_VECSMALL || t == t_STR) {
		for (long i = 1; i < lg(x); i++) if (x[i] != y[i]) return false;
		return true;
	}
	PM_EACH(i, first_comp(t), x) if (!pm_same(gel(x, i), gel(y, i))) return false;
	return true;
}
int gequal(GEN x, GEN y) {
	long tx = typ(x), ty = typ(y);
	if (tx == t_INT && ty == t_INT) return pm_v(x) == pm_v(y);
	if (tx == t_INTMOD && ty == t_INTMOD) return equalii(gel(x, 1), gel(y, 1)) && equalii(gel(x, 2), gel(y, 2));
	if (tx == t_INTMOD && ty == t_INT) return pm_v(gel(x, 2)) == pm_mod(pm_v(y), pm_v(gel(x, 1)));
	if (ty == t_INTMOD && tx == t_INT) return pm_v(gel(y, 2)) == pm_mod(pm_v(x), pm_v(gel(y, 1)));
	if (tx == t_FFELT && ty == t_FFELT) return pm_ffpoly(x) == pm_ffpoly(y) && pm_ffmod(x) == pm_ffmod(y);
	if (tx == t_FFELT && ty == t_INT) return pm_ffpoly(x) == (ulong)pm_mod(pm_v(y), 2);
	if (ty == t_FFELT && tx == t_INT) return pm_ffpoly(y) == (ulong)pm_mod(pm_v(x), 2);
	if (tx != ty) return 0;
	return pm_same(x, y);
}
int gidentical(GEN x, GEN y) { return pm_same(x, y); }
int gequalsg(long s, GEN x) { return gequal(stoi(s), x); }
int gequalgs(GEN x, long s) { return gequal(x, stoi(s)); }
int gcmp(GEN x, GEN y) { MODEL(typ(x) == t_INT && typ(y) == t_INT, "gcmp(int,int)"); return cmpii(x, y); }
int gcmpsg(long x, GEN y) { return cmpsi(x, y); }
int gcmpgs(GEN x, long y) { return cmpis(x, y); }
int mpcmp(GEN x, GEN y) { MODEL(typ(x) == t_INT && typ(y) == t_INT, "mpcmp(int,int)"); return cmpii(x, y); }
GEN gabs(GEN x, long prec) { (void)prec; return absi(x); }
GEN gfloor(GEN x) { return gcopy(x); }

/* sorted, without duplicates; integer entries only */
GEN gtoset(GEN x) {
	long n = lg(x) - 1, k = 0;
	MODEL(typ(x) == t_VEC && n <= 31, "gtoset of a short vector");
	val_t v[32];
	for (long i = 0; i < n; i++) v[i] = pm_v(gel(x, i + 1));
	for (long i = 1; i < n; i++) /* insertion network: constant control flow */
		for (long j = i; j > 0; j--) {
			val_t a = v[j - 1], b = v[j];
			v[j - 1] = a <= b ? a : b;
			v[j] = a <= b ? b : a;
		}
	if (PM_HINT(pm_hint_set) >= 0) {
		long h = pm_hint_set;
		GEN y = cgetg(h + 1, t_VEC);
		for (long j = 0; j < h; j++) {
			val_t w = 0;
			long c = 0;
			for (long i = 0; i < n; i++) {
				bool fresh = i == 0 || v[i] != v[i - 1];
				if (fresh && c == j) w = v[i];
				if (fresh) c++;
			}
			HINT(c == h, "number of distinct elements");
			gel(y, j + 1) = pm_mk(w);
		}
		return y;
	}
	GEN z = cgetg(n + 1, t_VEC);
	for (long i = 0; i < n; i++) {
		if (i == 0 || v[i] != v[i - 1]) {
			gel(z, k + 1) = pm_mk(v[i]);
			k++;
		}
	}
	for (long i = 0; i < n; i++) if (i >= k) gel(z, i + 1) = gen_0;
	z[0] = (long)(evaltyp(t_VEC) | (ulong)(k + 1));
	return z;
}

/* strings as GEN */
GEN strtoGENstr(const char *s) {
	size_t n = strlen(s) + 1;
	size_t w = (n + 7) / 8;
	GEN z = cgetg((long)w + 1, t_STR);
	char *d = (char *)(z + 1);
	for (size_t i = 0; i < n; i++) d[i] = s[i];
	return z;
}

/* ---- PARI errors ---------------------------------------------------------- */
void pari_err_TYPE(const char *f, GEN x) { (void)f; (void)x; pm_fatal("pari_err_TYPE"); }
void pari_err_BUG(const char *f) { (void)f; pm_fatal("pari_err_BUG"); }
void pari_err_DOMAIN(const char *f, const char *v, const char *op, GEN l, GEN x) { (void)f; (void)v; (void)op; (void)l; (void)x; pm_fatal("pari_err_DOMAIN"); }
