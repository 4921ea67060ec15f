#include "pm.h"
#include <stdio.h>
#include <stdlib.h>

/* ======================= tape / failures ================================ */
int pm_allow_exit = 0, pm_allow_err = 0;
long pm_hint_bits = -1, pm_hint_strlen = -1, pm_hint_prime = -1, pm_hint_set = -1, pm_hint_glen = -1, pm_hint_pol = -1;

#ifdef VCBMC
unsigned long nondet_ulong(void);
unsigned long pm_tape_v;
unsigned long nd_raw(void) {
	unsigned long v = nondet_ulong();
	pm_tape_v = v;
	return v;
}
#else
static unsigned long pm_tape[1 << 20];
static long pm_ntape = -1, pm_itape = 0;
static void tape_load(void) {
	const char *fn = getenv("PM_TAPE");
	FILE *f = fn ? fopen(fn, "r") : NULL;
	pm_ntape = 0;
	if (f) {
		while (pm_ntape < (1 << 20) && fscanf(f, "%lu", &pm_tape[pm_ntape]) == 1)
			pm_ntape++;
		fclose(f);
	}
}
unsigned long nd_raw(void) {
	if (pm_ntape < 0) tape_load();
	if (pm_itape >= pm_ntape) {
		/* past the recorded prefix: the verdict was already fixed there */
		if (pm_itape++ > pm_ntape + 100000) {
			fprintf(stderr, "PM-TAPE-EXHAUSTED\n");
			_exit(79);
		}
		return 0;
	}
	return pm_tape[pm_itape++];
}
void pm_native_fail(const char *m) {
	fprintf(stderr, "PM-FAIL %s\n", m);
	_exit(77);
}
void pm_native_model(const char *m) {
	fprintf(stderr, "PM-MODEL %s\n", m);
	_exit(78);
}
void pm_native_assume(const char *m) {
	fprintf(stderr, "PM-ASSUME %s\n", m);
	_exit(66);
}
#endif

unsigned long nd_bits(unsigned k) {
	unsigned long v = nd_raw();
	return k >= 64 ? v : v & ((1UL << k) - 1);
}
unsigned long nd_range(unsigned long lo, unsigned long hi) {
	unsigned long d = hi - lo;
	/* mask to the smallest covering power of two so upper bits are constant */
	unsigned long m = d;
	m |= m >> 1; m |= m >> 2; m |= m >> 4; m |= m >> 8; m |= m >> 16; m |= m >> 32;
	unsigned long v = nd_raw() & m;
	ASSUME(v <= d);
	return lo + v;
}

char *pm_mkstr(size_t n, int lo, int hi) {
	char *s = malloc(n + 1);
	for (size_t i = 0; i < n; i++) {
		s[i] = (char)nd_bits(8);
		ASSUME(s[i] != 0 && (unsigned char)s[i] >= lo && (unsigned char)s[i] <= hi);
	}
	s[n] = 0;
	pm_strreg(s, n);
	return s;
}
void pm_fatal(const char *why) {
	(void)why;
#ifdef VCBMC
	__CPROVER_assert(pm_allow_err != 0, "P: the program aborts (PARI error)");
	__CPROVER_assume(0);
#else
	if (!pm_allow_err) {
		fprintf(stderr, "PM-FAIL P: the program aborts (%s)\n", why);
		_exit(77);
	}
	_exit(0);
#endif
}

/* exit()/_exit of the code under test */
#ifdef VCBMC
void exit(int c) {
	(void)c;
	__CPROVER_assert(pm_allow_exit != 0, "P: the program exits");
	__CPROVER_assume(0);
}
#endif

/* ======================= PARI stack and chunks ========================== */
#define PM_STACK_TOP (1UL << 40)
THREAD pari_sp avma = PM_STACK_TOP;

static unsigned long pm_seq = 0, pm_watch_seq = ~0UL;
static pari_sp pm_watch_pos = 0;
static GEN pm_watch_ptr = NULL;
static bool pm_watch_dead = false;

void pm_watch_init(void) { pm_watch_seq = nd_bits(12); }
static void pm_watch_poll(void) {
	if (pm_watch_ptr && avma > pm_watch_pos) pm_watch_dead = true;
}
bool pm_live(GEN x) {
	pm_watch_poll();
	return !(pm_watch_ptr && x == pm_watch_ptr && pm_watch_dead);
}

GEN new_chunk(size_t n) {
	pm_watch_poll();
#ifdef PM_FLAT
	GEN p = n <= PM_VCAP ? (GEN)malloc(PM_VCAP * sizeof(long)) : (GEN)malloc(n * sizeof(long));
#else
	GEN p = (GEN)malloc((n ? n : 1) * sizeof(long));
#endif
	avma -= n * sizeof(long);
	if (pm_seq == pm_watch_seq) {
		pm_watch_ptr = p;
		pm_watch_pos = avma;
	}
	pm_seq++;
	return p;
}

static GEN chunk(size_t n, long t) {
	GEN p = new_chunk(n);
	p[0] = (long)(evaltyp(t) | n);
	return p;
}

void set_avma(pari_sp av) { avma = av; }

long pm_paristr_live = 0; /* blocks handed out and not yet freed */
void *pari_malloc(size_t n) { pm_paristr_live++; return malloc(n); }
void *pari_calloc(size_t n) { pm_paristr_live++; return calloc(1, n); }
void *pari_realloc(void *p, size_t n) { return realloc(p, n); }
void pari_free(void *p) { if (p) pm_paristr_live--; free(p); }

GEN cgetg(long n, long t) { return chunk((size_t)n, t); }
GEN cgetg_copy(GEN x, long *plx) { *plx = lg(x); return cgetg(*plx, typ(x)); }
GEN cgeti(long n) { (void)n; GEN z = chunk(PMLG, t_INT); z[1] = evallgefint(2); for (int i = 0; i < PMW; i++) z[2 + i] = 0; return z; }
GEN cgetipos(long n) { return cgeti(n); }

/* ======================= integers ======================================= */
#define LIMBS(s, a) {(long)(evaltyp(t_INT) | PMLG), (long)(evalsigne(s) | ((a) ? 3 : 2)), (a)} /* further limbs are 0 */
#ifdef PM_FLAT
#define PM_SLG PM_VCAP
#else
#define PM_SLG PMLG
#endif
static long pm_g0[PM_SLG] = LIMBS(0, 0);
static long pm_g1[PM_SLG] = LIMBS(1, 1);
static long pm_g2[PM_SLG] = LIMBS(1, 2);
static long pm_gm1[PM_SLG] = LIMBS(-1, 1);
static long pm_gm2[PM_SLG] = LIMBS(-1, 2);
GEN gen_0 = pm_g0, gen_1 = pm_g1, gen_2 = pm_g2, gen_m1 = pm_gm1, gen_m2 = pm_gm2;
static long pm_gnil[PM_SLG] = LIMBS(0, 0);
GEN gnil = pm_gnil;

val_t pm_v(GEN x) {
	mag_t m = 0;
	for (int i = PMW - 1; i >= 0; i--) {
#if PM_VBITS > 64
		m <<= 64;
#endif
		m |= (mag_t)(ulong)x[2 + i];
	}
	long s = signe(x);
	return s == 0 ? (val_t)0 : s < 0 ? -(val_t)m : (val_t)m;
}

static void pm_set(GEN z, val_t v) {
	long s = v < 0 ? -1 : (v > 0 ? 1 : 0);
	val_t a = v < 0 ? -v : v;
	/* bound of the encoding: magnitudes stay below 2^(64*PMW) */
	ASSUME((a >> PM_VBITS) == 0);
	mag_t m = (mag_t)a;
	long l = 2;
	for (int i = 0; i < PMW; i++) {
		ulong w = (ulong)m;
		z[2 + i] = (long)w;
		if (w) l = 3 + i;
#if PM_VBITS > 64
		m >>= 64;
#endif
	}
	z[1] = (long)(evalsigne(s) | (ulong)l);
}
GEN pm_mk(val_t v) {
	GEN z = chunk(PMLG, t_INT);
	pm_set(z, v);
	return z;
}

val_t pm_l(long x) {
#if PM_VBITS < 64
	MODEL(x < (1L << PM_VBITS) && x > -(1L << PM_VBITS), "long constant within the encoding");
#endif
	return (val_t)x;
}
val_t pm_ul(ulong x) {
#if PM_VBITS < 64
	MODEL(x < (1UL << PM_VBITS), "ulong constant within the encoding");
#endif
	return (val_t)x;
}
GEN stoi(long x) { return x ? pm_mk(pm_l(x)) : gen_0; }
GEN utoi(ulong x) { return x ? pm_mk(pm_ul(x)) : gen_0; }
GEN stoipos(long x) { return pm_mk(pm_l(x)); }
GEN stoineg(long x) { return pm_mk(pm_l(x)); }
GEN utoipos(ulong x) { return pm_mk(pm_ul(x)); }
GEN utoineg(ulong x) { return pm_mk(-pm_ul(x)); }
long itos(GEN x) {
	val_t v = pm_v(x);
#if PM_VBITS >= 63
	if (v > (val_t)9223372036854775807L || v < -(val_t)9223372036854775807L) pm_fatal("overflow in itos");
#endif
	return (long)v;
}
ulong itou(GEN x) {
	/* libpari: the lowest limb, whatever the sign; overflow is an error */
	if (lgefint(x) > 3) pm_fatal("overflow in itou");
	return signe(x) ? (ulong)x[2] : 0;
}
long itos_or_0(GEN x) {
	val_t v = pm_v(x);
#if PM_VBITS >= 63
	if (v > (val_t)9223372036854775807L || v < -(val_t)9223372036854775807L) return 0;
#endif
	return (long)v;
}
ulong itou_or_0(GEN x) { return lgefint(x) > 3 ? 0 : itou(x); }
GEN int2u(ulong n) { return int2n((long)n); }
GEN int2n(long n) {
	if (n < 0) return gen_0;
	MODEL(n <= PM_VBITS - 1, "int2n within width");
	return pm_mk((val_t)1 << n);
}
GEN int2um1(ulong n) { return pm_mk(((val_t)1 << n) - 1); }

GEN icopy(GEN x) { return pm_mk(pm_v(x)); }
GEN addii(GEN x, GEN y) { return pm_mk(pm_v(x) + pm_v(y)); }
GEN subii(GEN x, GEN y) { return pm_mk(pm_v(x) - pm_v(y)); }
GEN addis(GEN x, long y) { return pm_mk(pm_v(x) + pm_l(y)); }
GEN addsi(long y, GEN x) { return pm_mk(pm_v(x) + pm_l(y)); }
GEN addiu(GEN x, ulong y) { return pm_mk(pm_v(x) + pm_ul(y)); }
GEN addui(ulong y, GEN x) { return pm_mk(pm_v(x) + pm_ul(y)); }
GEN subis(GEN x, long y) { return pm_mk(pm_v(x) - pm_l(y)); }
GEN subsi(long y, GEN x) { return pm_mk(pm_l(y) - pm_v(x)); }
GEN subiu(GEN x, ulong y) { return pm_mk(pm_v(x) - pm_ul(y)); }
GEN subui(ulong y, GEN x) { return pm_mk(pm_ul(y) - pm_v(x)); }
GEN addss(long x, long y) { return pm_mk(pm_l(x) + pm_l(y)); }
GEN subss(long x, long y) { return pm_mk(pm_l(x) - pm_l(y)); }
GEN adduu(ulong x, ulong y) { return pm_mk(pm_ul(x) + pm_ul(y)); }

static val_t vabs(val_t a) { return a < 0 ? -a : a; }
static val_t vmul(val_t a, val_t b) {
	bool neg = (a < 0) != (b < 0);
	dbl_t p = (dbl_t)(mag_t)vabs(a) * (dbl_t)(mag_t)vabs(b);
	ASSUME((p >> PM_VBITS) == 0);
	val_t r = (val_t)p;
	return neg ? -r : r;
}
GEN mulii(GEN x, GEN y) { return pm_mk(vmul(pm_v(x), pm_v(y))); }
GEN mulis(GEN x, long y) { return pm_mk(vmul(pm_v(x), pm_l(y))); }
GEN mulsi(long y, GEN x) { return pm_mk(vmul(pm_v(x), pm_l(y))); }
GEN muliu(GEN x, ulong y) { return pm_mk(vmul(pm_v(x), pm_ul(y))); }
GEN mului(ulong y, GEN x) { return pm_mk(vmul(pm_v(x), pm_ul(y))); }
GEN mulss(long x, long y) { return pm_mk(vmul(pm_l(x), pm_l(y))); }
GEN muluu(ulong x, ulong y) { return pm_mk(vmul(pm_ul(x), pm_ul(y))); }
GEN sqri(GEN x) { return mulii(x, x); }
GEN sqrs(long x) { return mulss(x, x); }
GEN negi(GEN x) { return pm_mk(-pm_v(x)); }
GEN absi(GEN x) { return pm_mk(vabs(pm_v(x))); }
void togglesign(GEN x) { /* in place, as in libpari */
	if (typ(x) == t_INT) { if (signe(x)) setsigne(x, -signe(x)); }
}
GEN shifti(GEN x, long n) {
	val_t v = pm_v(x), a = vabs(v);
	if (n >= 0) { ASSUME(n < PM_VBITS); ASSUME((a >> (PM_VBITS - n)) == 0); a <<= n; }
	else { a = (-n >= PM_VBITS + 7) ? (val_t)0 : (a >> -n); }
	return pm_mk(v < 0 ? -a : a);
}
/* truncating and euclidean division */
static void need_nz(val_t b) { if (b == 0) pm_fatal("impossible inverse in division"); }
static val_t vquo(val_t a, val_t b) { need_nz(b); mag_t q = (mag_t)vabs(a) / (mag_t)vabs(b); return ((a < 0) != (b < 0)) ? -(val_t)q : (val_t)q; }
static val_t vrem(val_t a, val_t b) { need_nz(b); mag_t r = (mag_t)vabs(a) % (mag_t)vabs(b); return a < 0 ? -(val_t)r : (val_t)r; }
static val_t vmod(val_t a, val_t b) { val_t r = vrem(a, b); return r < 0 ? r + vabs(b) : r; }
static val_t vfdiv(val_t a, val_t b) { val_t q = vquo(a, b); val_t r = vrem(a, b); if (r != 0 && ((r < 0) != (b < 0))) q = q - 1; return q; }
val_t pm_mod(val_t a, val_t m) { return vmod(a, m); }
val_t pm_fdiv(val_t a, val_t m) { return vfdiv(a, m); }
GEN divii(GEN x, GEN y) { return pm_mk(vquo(pm_v(x), pm_v(y))); }
GEN divis(GEN x, long y) { return pm_mk(vquo(pm_v(x), pm_l(y))); }
GEN diviu(GEN x, ulong y) { return pm_mk(vquo(pm_v(x), pm_ul(y))); }
GEN divsi(long x, GEN y) { return pm_mk(vquo(pm_l(x), pm_v(y))); }
GEN truedivii(GEN x, GEN y) { return pm_mk(vfdiv(pm_v(x), pm_v(y))); }
GEN truedivis(GEN x, long y) { return pm_mk(vfdiv(pm_v(x), pm_l(y))); }
GEN diviiexact(GEN x, GEN y) {
	MODEL(vrem(pm_v(x), pm_v(y)) == 0, "diviiexact on a non-multiple");
	return pm_mk(vquo(pm_v(x), pm_v(y)));
}
GEN diviuexact(GEN x, ulong y) {
	MODEL(vrem(pm_v(x), (val_t)y) == 0, "diviuexact on a non-multiple");
	return pm_mk(vquo(pm_v(x), (val_t)y));
}
GEN remii(GEN x, GEN y) { return pm_mk(vrem(pm_v(x), pm_v(y))); }
GEN remis(GEN x, long y) { return pm_mk(vrem(pm_v(x), pm_l(y))); }
GEN modii(GEN x, GEN y) { return pm_mk(vmod(pm_v(x), pm_v(y))); }
GEN modis(GEN x, long y) { return pm_mk(vmod(pm_v(x), pm_l(y))); }
ulong umodiu(GEN x, ulong y) { return (ulong)vmod(pm_v(x), pm_ul(y)); }
ulong umodui(ulong x, GEN y) { return (ulong)vmod(pm_ul(x), pm_v(y)); }
GEN dvmdii(GEN x, GEN y, GEN *r) {
	val_t a = pm_v(x), b = pm_v(y);
	if (r == ONLY_REM) return pm_mk(vrem(a, b));
	if (r == ONLY_DIVIDES) return vrem(a, b) == 0 ? pm_mk(vquo(a, b)) : NULL;
	if (r) *r = pm_mk(vrem(a, b));
	return pm_mk(vquo(a, b));
}
int dvdii(GEN x, GEN y) { return vrem(pm_v(x), pm_v(y)) == 0; }
int dvdis(GEN x, long y) { return vrem(pm_v(x), pm_l(y)) == 0; }
int dvdiu(GEN x, ulong y) { return vrem(pm_v(x), pm_ul(y)) == 0; }
int dvdsi(long x, GEN y) { return vrem(pm_l(x), pm_v(y)) == 0; }
long mod2(GEN x) { return (long)((ulong)vabs(pm_v(x)) & 1); }
long mod4(GEN x) { return (long)((ulong)vabs(pm_v(x)) & 3); } /* of |x|, as libpari */
long mod8(GEN x) { return (long)((ulong)vabs(pm_v(x)) & 7); }
long mod16(GEN x) { return (long)((ulong)vabs(pm_v(x)) & 15); }
int mpodd(GEN x) { return (int)((ulong)vabs(pm_v(x)) & 1); }
static int vcmp(val_t a, val_t b) { return a < b ? -1 : a > b ? 1 : 0; }
int cmpii(GEN x, GEN y) { return vcmp(pm_v(x), pm_v(y)); }
int cmpis(GEN x, long y) { return vcmp(pm_v(x), pm_l(y)); }
int cmpsi(long x, GEN y) { return vcmp(pm_l(x), pm_v(y)); }
int cmpiu(GEN x, ulong y) { return vcmp(pm_v(x), pm_ul(y)); }
int cmpui(ulong x, GEN y) { return vcmp(pm_ul(x), pm_v(y)); }
int equalii(GEN x, GEN y) { return pm_v(x) == pm_v(y); }
int equalis(GEN x, long y) { return pm_v(x) == pm_l(y); }
int equalsi(long x, GEN y) { return pm_v(y) == pm_l(x); }
int equaliu(GEN x, ulong y) { return pm_v(x) == pm_ul(y); }
int equalui(ulong x, GEN y) { return pm_v(y) == pm_ul(x); }
int abscmpii(GEN x, GEN y) { return vcmp(vabs(pm_v(x)), vabs(pm_v(y))); }
int abscmpiu(GEN x, ulong y) { return vcmp(vabs(pm_v(x)), pm_ul(y)); }
int absequalii(GEN x, GEN y) { return vabs(pm_v(x)) == vabs(pm_v(y)); }
int absequaliu(GEN x, ulong y) { return vabs(pm_v(x)) == pm_ul(y); }
int is_pm1(GEN x) { return vabs(pm_v(x)) == 1; }
long expi(GEN x) {
	val_t v = vabs(pm_v(x));
	long e = -1;
	MODEL((v >> PM_MAXBITS) == 0, "integer length within PM_MAXBITS");
	for (int i = 0; i < PM_MAXBITS; i++) if ((v >> i) != 0) e = i;
	return v == 0 ? -(long)HIGHEXPOBIT : e;
}
long logint(GEN x, GEN b) { MODEL(pm_v(b) == 2, "logint base 2 only"); return expi(x); }
long logint0(GEN x, GEN b, GEN *p) { MODEL(pm_v(b) == 2 && !p, "logint0 base 2 only"); return expi(x); }

val_t pm_mulmod(val_t a, val_t b, val_t m) {
	dbl_t p = (dbl_t)(mag_t)vmod(a, m) * (dbl_t)(mag_t)vmod(b, m);
	return (val_t)(p % (dbl_t)(mag_t)m);
}
GEN binary_zv(GEN x) {
	val_t a = vabs(pm_v(x));
	long e;
	if (PM_HINT(pm_hint_bits) >= 0) {
		e = pm_hint_bits - 1;
		HINT((a >> (e + 1)) == 0 && (e < 0 || ((a >> e) & 1) == 1), "bit length");
		GEN y = new_chunk((size_t)(e + 2));
		y[0] = (long)(evaltyp(t_VECSMALL) | (ulong)(e + 2));
		for (long i = 1; i <= e + 1; i++) y[i] = (long)((ulong)(a >> (e + 1 - i)) & 1);
		return y;
	}
	e = a == 0 ? -1 : expi(x);
	GEN z = new_chunk(PM_MAXBITS + 1);
	z[0] = (long)(evaltyp(t_VECSMALL) | (ulong)(e + 2));
	for (long i = 1; i <= PM_MAXBITS; i++)
		if (i <= e + 1) z[i] = (long)((ulong)(a >> (e + 1 - i)) & 1);
	return z;
}
/* ======================= random ========================================= */
ulong pm_random_seedval;
void setrand(GEN x) { pm_random_seedval = itou(x); }
/* mode 1 records the draws, mode 2 returns their complements in order */
static int pm_rmode = 0;
static unsigned long pm_rlog[64];
static unsigned pm_rn = 0;
static unsigned long pm_rbits = 0;
void pm_rand_mode(int m) { pm_rmode = m; pm_rn = 0; pm_rbits = 0; }
unsigned long pm_rand_bits(void) { return pm_rbits; }
long random_bits(long k) {
	/* documented: uniform in [0, 2^k), k positive */
	MODEL(k <= 63, "random_bits(k>63)");
	unsigned long m = k <= 0 ? ~0UL : (1UL << k) - 1; /* k<=0: libpari does not reduce */
	unsigned long v;
	pm_rbits += (unsigned long)(k > 0 ? k : 0);
	if (pm_rmode == 2) {
		MODEL(pm_rn < 64, "draws");
		v = ~pm_rlog[pm_rn++] & m;
	} else {
		v = nd_raw() & m;
		if (pm_rmode == 1) {
			MODEL(pm_rn < 64, "draws");
			pm_rlog[pm_rn++] = v;
		}
	}
	return (long)v;
}
