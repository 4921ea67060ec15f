/* The order stage: what it records, which curves it accepts, and the checks on
 * the order. */
#include "hs.h"
#include "gen/order.h"
#include "math/koblitz.h"
#ifndef KIND
#define KIND 0
#endif
#ifndef NMAX
#define NMAX 255
#endif
#ifndef CORE_MAX
#define CORE_MAX 16
#endif
#ifndef MLO
#define MLO 0
#define MHI 1
#endif
#ifndef KFIELD
#define KFIELD 0
#define KTWIST 0
#define KA 0
#define KFORM 0
#define KA2 0
#define KB2 0
#endif
#ifndef PFIELD
#define PFIELD 251
#endif

static config_t hcfg;
static curve_t *any_curve(val_t n1, val_t n2) {
	curve_t *c = hs_curve(PFIELD, n1, n2);
	/* an earlier stage may have left a computed order behind */
	if (nd_bool()) obj_insert(c->curve, 1, pm_mk(pm_card(c->curve)));
	return c;
}
static void check_recorded(curve_t *c) {
	P(c->order != NULL && typ(c->order) == t_INT, "an order is recorded");
	P(pm_live(c->order), "the recorded order is live");
	P(pm_v(c->order) == pm_card(c->curve), "the recorded order is the number of points of the curve");
	GEN s = pm_slot(c->curve, 1);
	if (!isintzero(s)) {
		P(pm_live(s), "the cached order is live");
		P(pm_v(s) == pm_card(c->curve), "the cached order is the number of points of the curve");
	}
}
static void check_refused(curve_t *c, int r) {
	P(r == -4, "a curve of another kind sends the run back to redraw the equation");
	GEN s = pm_slot(c->curve, 1);
	if (!isintzero(s)) P(pm_live(s) && pm_v(s) == pm_card(c->curve), "but a sound cached order");
}

/* KEXP: shape of the order (exponents of its distinct primes) */
#ifndef KEXP
#define KEXP 1
#endif
#ifndef PMAX
#define PMAX 31
#endif
static const int kexp[] = {KEXP};
#define KN ((int)(sizeof kexp / sizeof *kexp))
static val_t pr[8];
static val_t shaped_order(void) {
	for (int i = 0; i < KN; i++) pr[i] = (val_t)nd_range(2, PMAX);
	return pm_reg_factor(KN, pr, kexp);
}
void h_order(void) {
	pm_watch_init();
	cfg = &hcfg;
	val_t n;
#if KIND == 4
	n = shaped_order();
#else
	n = (val_t)nd_range(1, NMAX);
#endif
	curve_t *c = any_curve(n, 1);
	int r;
	bool want = true;
#if KIND == 0
	r = order_gen_any(c, NULL, OFFSET_ORDER);
#elif KIND == 1
	r = order_gen_sea(c, NULL, OFFSET_ORDER);
#elif KIND == 2
	r = order_gen_prime(c, NULL, OFFSET_ORDER);
	want = pm_isprime_v(n);
#elif KIND == 3
	pari_ulong h = nd_range(1, NMAX);
	arg_t a = {&h, 1, NULL};
	r = order_gen_cofactor(c, &a, OFFSET_ORDER);
	want = false;
	if (pm_mod(n, (val_t)h) == 0) want = pm_isprime_v(pm_fdiv(n, (val_t)h));
#elif KIND == 4
	pari_ulong h = nd_range(0, 16);
	arg_t a = {&h, 1, NULL};
	r = order_gen_smooth(c, &a, OFFSET_ORDER);
	for (int i = 0; i < KN; i++) if ((pr[i] >> h) != 0) want = false;
#endif
	if (want) {
		P(r == 1, "a curve of the requested kind is never refused");
		check_recorded(c);
		REACH("accepted");
	} else {
		check_refused(c, r);
		REACH("refused");
	}
}
/* order_check_pohlig_hellman: smallest prime factor bound given as text */
#ifndef DIGITS
#define DIGITS 2
#endif
static val_t text_value(const char *s) {
	val_t v = 0;
	for (int i = 0; i < DIGITS; i++) v = v * 10 + (val_t)(s[i] - '0');
	return v;
}
void h_ph(void) {
	pm_watch_init();
	cfg = &hcfg;
	val_t n = shaped_order();
	curve_t *c = any_curve(n, 1);
	c->order = pm_mk(n);
	char *s = pm_mkstr(DIGITS, '0', '9');
#if DIGITS == 2
	ASSUME(s[0] != '0');
#endif
	arg_t a = {s, 1, NULL};
	int r = order_check_pohlig_hellman(c, &a, OFFSET_ORDER);
	bool ok = pr[KN - 1] > text_value(s);
	P(r == (ok ? 1 : -4), "accepted exactly when the largest prime factor of the order exceeds the limit");
	P(pm_live(c->order) && pm_v(c->order) == n, "the check leaves the curve as it was");
	REACH("ph");
	if (!ok) REACH("ph refused");
}
/* order_check_discriminant */
GEN core(GEN x) { /* squarefree part, with the sign */
	val_t v = pm_v(x), m = v < 0 ? -v : v, best = 1;
	MODEL(m != 0 && m < CORE_MAX * CORE_MAX, "core() of a small integer");
	for (int s = 2; s < CORE_MAX; s++) if (pm_mod(m, (val_t)(s * s)) == 0) best = (val_t)s;
	val_t q = 0;
	for (int s = 1; s < CORE_MAX; s++) if (best == s) q = pm_fdiv(m, (val_t)(s * s));
	return pm_mk(v < 0 ? -q : q);
}
void h_disc(void) {
	pm_watch_init();
	cfg = &hcfg;
	val_t p = (val_t)nd_range(5, 61);
	ASSUME(pm_isprime_v(p));
	val_t n = (val_t)nd_range(1, 90), t = p + 1 - n;
	ASSUME(t * t < 4 * p); /* Hasse */
	hcfg.field = nd_bool() ? FIELD_BINARY : FIELD_PRIME;
	curve_t *c = hs_curve(p, n, 1);
	c->order = pm_mk(n);
	char *s = pm_mkstr(DIGITS, '0', '9');
#if DIGITS == 2
	ASSUME(s[0] != '0');
#endif
	arg_t a = {s, 1, NULL};
	/* |D| where t^2 - 4p = D f^2 with D squarefree */
	val_t d = 4 * p - t * t, D = (val_t)nd_range(1, 255), f = (val_t)nd_range(1, 15);
	ASSUME(D * f * f == d);
	for (int k = 2; k < 16; k++) ASSUME(pm_mod(D, (val_t)(k * k)) != 0);
	int r = order_check_discriminant(c, &a, OFFSET_ORDER);
	bool ok = hcfg.field == FIELD_BINARY || D > text_value(s);
	P(r == (ok ? 1 : -4), "accepted exactly when the CM discriminant exceeds the limit in absolute value");
	P(pm_live(c->order) && pm_v(c->order) == n, "the check leaves the curve as it was");
	REACH("disc");
	if (!ok) REACH("disc refused");
}
/* ---- Koblitz curves: #E(F_2^m) = 2^m + 1 - V_m, V the Lucas sequence with
 * V_0 = 2, V_1 = mu = (-1)^(1-a), V_k+1 = mu V_k - 2 V_k-1 */
static val_t lucas(unsigned m, int a) {
	val_t u = 2, v = a ? 1 : -1, q = 2;
	for (unsigned k = 1; k < m; k++) {
		val_t w = (a ? v : -v) - 2 * u;
		u = v;
		v = w;
		q = q * 2;
	}
	return q + 1 - v;
}
#ifndef BITS
#define BITS 101
#endif
/* the table itself, whatever is asked of it */
void h_find(void) {
	unsigned long m = nd_bits(32), a = nd_bits(32);
	const koblitz_t *k = koblitz_find(m, a);
	if (k) {
		P(k->m == m && k->a == a, "the table entry is for the degree and the coefficient asked for");
		P(a <= 1, "Koblitz curves have a in {0, 1}");
		REACH("found");
	}
	REACH("find");
}
void h_table(void) {
	cfg = &hcfg;
	for (unsigned m = MLO; m <= MHI; m++)
		for (int a = 0; a < 2; a++) {
			GEN o = koblitz_get_order(m, (unsigned long)a);
			if (o) P(pm_v(o) == lucas(m, a), "the tabulated order is the number of points");
		}
	REACH("table");
}
void h_koblitz(void) {
	pm_watch_init();
	cfg = &hcfg;
	hcfg.bits = BITS;
	curve_t *c;
#if KFIELD /* prime field of BITS bits */
	hcfg.field = FIELD_PRIME;
	val_t n = (val_t)nd_range(1, 1UL << 40) + ((val_t)1 << (BITS - 1));
	c = hs_curve((val_t)1 << (BITS - 1), n, 1);
	c->a = KA ? gen_1 : gen_0;
	c->b = gen_1;
#else
	hcfg.field = FIELD_BINARY;
	/* the field is only looked at for its kind: a small modulus stands for it */
	ulong T = 0x25;
	val_t n = lucas(BITS, KA);
	c = hs_curve(2, n, 1);
	c->field = pm_mkff(2, T);
	const unsigned form = KFORM;
	c->a = form ? (KA ? gen_1 : gen_0) : pm_mkff(KA, T);
	c->b = form ? gen_1 : pm_mkff(1, T);
#if KTWIST /* another curve: a or b is another element of the field */
	c->a = pm_mkff(KA2, T);
	c->b = pm_mkff(KB2, T);
	val_t other = (val_t)nd_range(1, 1UL << 40) + ((val_t)1 << (BITS - 1));
	pm_curves[pm_curve_id(c->curve)].n1 = other;
#endif
#endif
	int r = order_gen_koblitz(c, NULL, OFFSET_ORDER);
	P(r == 1, "the order is always found");
	check_recorded(c);
	REACH("koblitz");
}
