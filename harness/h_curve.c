/* The curve stage: the equation built is the one of the chosen coefficients,
 * never singular; twists are twists. */
#include "hs.h"
#include "gen/curve.h"
#include "gen/equation.h"
#include "gen/seed.h"
#include "math/twists.h"
#include "util/bits.h"
#ifndef PMAX
#define PMAX 31
#endif
#ifndef MDEG
#define MDEG 3
#endif
#ifndef FMASK
#define FMASK 11
#endif
/* ---- curves over finite fields by their coefficients -------------------------- */
static bool binary;
static unsigned ntw;
static val_t p;
static val_t fe(GEN x) {
	if (binary) {
		if (typ(x) == t_INT) return pm_mod(pm_v(x), 2);
		MODEL(typ(x) == t_FFELT, "an element of the binary field");
		return (val_t)pm_ffpoly(x);
	}
	if (typ(x) == t_INT) return pm_mod(pm_v(x), p);
	MODEL(typ(x) == t_INTMOD, "an element of the prime field");
	return pm_v(gel(x, 2));
}
static GEN mkfe(val_t v) { return binary ? pm_mkff((ulong)v, FMASK) : mkintmod(pm_mk(v), pm_mk(p)); }
#ifdef VCBMC
typedef unsigned __CPROVER_bitvector[10] s_t;
#else
typedef unsigned _BitInt(10) s_t;
#endif
static val_t mm(val_t a, val_t b) { return (val_t)(mag_t)(s_t)((s_t)((s_t)a * (s_t)b) % (s_t)p); } /* operands below 32 */
static bool singular(val_t a, val_t b) {
	if (binary) return b == 0;
	val_t d = mm(4, mm(a, mm(a, a))) + mm(27, mm(b, b));
	return (s_t)d % (s_t)p == 0;
}
GEN ellinit(GEN v, GEN D, long prec) {
	(void)prec;
	P(D != NULL && typ(D) == (binary ? t_FFELT : t_INT) && (binary ? pm_ffmod(D) == FMASK : pm_v(D) == p), "the curve is over the chosen field");
	MODEL(typ(v) == t_VEC && (lg(v) == 3 || lg(v) == 6), "coefficients of a curve");
	val_t a1 = 0, a2 = 0, a3 = 0, a4, a6;
	if (lg(v) == 3) { a4 = fe(gel(v, 1)); a6 = fe(gel(v, 2)); }
	else { a1 = fe(gel(v, 1)); a2 = fe(gel(v, 2)); a3 = fe(gel(v, 3)); a4 = fe(gel(v, 4)); a6 = fe(gel(v, 5)); }
	if (binary) P(a1 == 1 && a3 == 0 && a4 == 0, "y^2 + xy = x^3 + a x^2 + b");
	else P(a1 == 0 && a2 == 0 && a3 == 0, "y^2 = x^3 + a x + b");
	val_t a = binary ? a2 : a4;
#ifdef SING
	if (!ntw) HINT(singular(a, a6) == SING, "singular as expected");
	if (PM_HINT(SING) >= 0 ? !ntw && SING : singular(a, a6)) return cgetg(1, t_VEC);
#else
	if (singular(a, a6)) return cgetg(1, t_VEC);
#endif
	GEN E = cgetg(17, t_VEC);
	for (long i = 1; i <= 13; i++) gel(E, i) = gen_0;
	gel(E, 1) = mkfe(a1);
	gel(E, 2) = mkfe(a2);
	gel(E, 3) = mkfe(0);
	gel(E, 4) = mkfe(a4);
	gel(E, 5) = mkfe(a6);
	gel(E, 12) = mkfe(1); /* nonzero: all that is used of it */
	gel(E, 13) = mkfe(0);
	gel(E, 14) = mkvecsmall2(3, 0);
	gel(E, 15) = gen_0;
	gel(E, 16) = zerovec(5);
	return E;
}
/* what the code keeps of a curve must survive; the copy itself is not modelled */
GEN gerepilecopy(pari_sp av, GEN x) { (void)av; return x; }
/* the quadratic twist by an arbitrary non-square (element of trace one) */
static val_t tw;
GEN elltwist(GEN E, GEN P_) {
	MODEL(P_ == NULL, "quadratic twist");
	ntw++;
	if (binary) return mkvec5(mkfe(1), mkfe(fe(gel(E, 2)) ^ tw), mkfe(0), mkfe(0), gcopy(gel(E, 5)));
	val_t u2 = mm(tw, tw);
	return mkvec2(mkfe(mm(u2, fe(gel(E, 4)))), mkfe(mm(mm(u2, tw), fe(gel(E, 5)))));
}
/* ---- the stage ------------------------------------------------------------------ */
static curve_t *c;
static val_t a, b;
static GEN ga, gb, gf;
static void fresh(void) {
	pm_watch_init();
#ifdef BIN
	binary = true;
	p = 2;
	a = (val_t)nd_bits(MDEG);
	b = (val_t)nd_bits(MDEG);
	tw = (val_t)nd_bits(MDEG);
#else
	binary = false;
	p = (val_t)nd_range(5, PMAX);
	ASSUME(pm_isprime_v(p));
	a = pm_between(0, p - 1);
	b = pm_between(0, p - 1);
	tw = pm_between(1, p - 1);
#endif
	cfg->field = binary ? FIELD_BINARY : FIELD_PRIME;
	c = curve_new();
	gf = c->field = binary ? pm_mkff(2, FMASK) : pm_mk(p);
	ga = c->a = mkfe(a);
	gb = c->b = mkfe(b);
#ifdef SING
#ifndef RAWINT
	ASSUME(singular(a, b) == SING);
#endif
#endif
}
static void is_curve(val_t a_, val_t b_) {
	P(c->curve && pm_live_deep(c->curve) && lg(c->curve) == 17, "a curve is recorded");
	GEN e = c->curve;
	P(fe(gel(e, 1)) == (binary ? 1 : 0) && fe(gel(e, 3)) == 0, "of the promised shape");
	P(fe(gel(e, binary ? 4 : 2)) == 0, "of the promised shape (linear and quadratic terms)");
	P(fe(gel(e, binary ? 2 : 4)) == a_, "with the chosen a");
	P(fe(gel(e, 5)) == b_, "with the chosen b");
	P(!singular(a_, b_), "never singular");
}
void h_any(void) {
	fresh();
#ifdef RAWINT /* coefficients may be plain integers (0 and 1) */
	a = nd_bits(1);
	b = nd_bits(1);
	ga = c->a = a ? gen_1 : gen_0;
	gb = c->b = b ? gen_1 : gen_0;
#ifdef SING
	ASSUME(singular(a, b) == SING);
#endif
#endif
	int r = curve_gen_any(c, NULL, OFFSET_CURVE);
	if (singular(a, b)) {
		P(r == -3, "a singular equation sends the run back to draw another");
		P(c->curve == NULL, "and records no curve");
		REACH("singular");
	} else {
		P(r == 1, "succeeds");
		is_curve(a, b);
		REACH("any");
	}
	P(c->a == ga && c->b == gb && c->field == gf, "field and coefficients are untouched");
	P(pm_live(c->a) && pm_live(c->b) && pm_live(c->field), "and live");
}
#ifdef NGEN
static void extras(void) {
	c->seed = seed_new();
	c->seed->seed = NULL;
	c->ngens = NGEN;
	c->generators = subgroups_new(NGEN ? NGEN : 1);
	for (int i = 0; i < NGEN; i++) {
		subgroup_t *s = subgroup_new();
		s->generator = point_new();
		s->generator->point = gen_0;
		s->generator->order = gen_1;
		s->generator->cofactor = gen_1;
		c->generators[i] = s;
	}
}
#else
static void extras(void) {}
#endif
static void is_twist(void) {
	val_t a2, b2;
	if (binary) { a2 = a ^ tw; b2 = b; }
	else { a2 = mm(mm(tw, tw), a); b2 = mm(mm(mm(tw, tw), tw), b); }
	P(ntw == 1, "twisted once");
	is_curve(a2, b2);
	P(c->field && pm_live_deep(c->field) && (binary ? pm_ffmod(c->field) == FMASK : pm_v(c->field) == p), "over the same field");
	P(c->a && c->b && pm_live_deep(c->a) && pm_live_deep(c->b), "coefficients are recorded");
	P(fe(c->a) == a2 && fe(c->b) == b2, "the recorded coefficients are those of the twist");
}
void h_gen_twist(void) {
	fresh();
	extras();
	int r = curve_gen_any_twist(c, NULL, OFFSET_CURVE);
	if (singular(a, b)) {
		P(r == -3, "a singular equation sends the run back to draw another");
		REACH("singular");
	} else {
		P(r == 1, "succeeds");
		is_twist();
		P(c->order == NULL, "no order is made up");
		P(c->seed == NULL, "a twist is not derived from the seed");
		P(c->generators == NULL, "the generators of the old curve are gone");
		REACH("twist");
	}
}
/* the twist of a curve of known order */
void h_twist_order(void) {
	fresh();
	ASSUME(!singular(a, b));
	P(curve_gen_any(c, NULL, OFFSET_CURVE) == 1, "succeeds");
	val_t q = binary ? (val_t)1 << MDEG : p, t = pm_between(-11, 11);
	c->order = pm_mk(q + 1 - t);
	extras();
	twist_rand(c);
	is_twist();
	P(c->order && pm_live(c->order) && pm_v(c->order) == q + 1 + t, "the orders of a curve and its twist sum to 2q + 2");
	GEN o = pm_slot(c->curve, 1);
	P(o == gen_0 || (typ(o) == t_INT && pm_live(o) && pm_v(o) == q + 1 + t), "the order cached with the curve is its order");
	P(c->seed == NULL, "a twist is not derived from the seed");
	P(c->generators == NULL, "the generators of the old curve are gone");
	REACH("order");
}
void h_nonzero(void) {
	fresh();
	val_t d = binary ? (val_t)nd_bits(MDEG) : pm_between(0, p - 1);
	GEN E = cgetg(17, t_VEC);
	for (long i = 1; i <= 16; i++) gel(E, i) = gen_0;
	gel(E, 12) = mkfe(d);
	c->curve = E;
	P(curve_check_nonzero(c, NULL, OFFSET_CURVE) == (d == 0 ? -3 : 1), "refused exactly when the discriminant vanishes");
	REACH("nonzero");
}
void h_unroll(void) {
	fresh();
	ASSUME(!singular(a, b));
	P(curve_gen_any(c, NULL, OFFSET_CURVE) == 1, "succeeds");
	P(curve_unroll(c, 0, 0) == -1, "undoing goes back one stage");
	P(c->curve == NULL, "the curve is gone");
	P(curve_unroll(c, 0, 0) == -1, "undoing twice is harmless");
	P(c->a == ga && c->b == gb && c->field == gf, "the coefficients stay");
	REACH("unroll");
}
/* coefficients: random ones are elements of the field, fixed ones as named */
void h_coef(void) {
	fresh();
	P(a_gen_random(c, NULL, OFFSET_A) == 1 && b_gen_random(c, NULL, OFFSET_B) == 1, "drawing succeeds");
	if (binary) {
		P(typ(c->a) == t_FFELT && typ(c->b) == t_FFELT, "elements of the field");
		P((fe(c->a) >> MDEG) == 0 && (fe(c->b) >> MDEG) == 0 && pm_ffmod(c->a) == FMASK && pm_ffmod(c->b) == FMASK, "reduced elements of the field");
	} else {
		val_t x = typ(c->a) == t_INT ? pm_v(c->a) : fe(c->a), y = typ(c->b) == t_INT ? pm_v(c->b) : fe(c->b);
		P(x >= 0 && x < p && y >= 0 && y < p, "reduced elements of the field");
	}
	P(a_gen_zero(c, NULL, OFFSET_A) == 1 && gequal0(c->a), "zero");
	P(b_gen_zero(c, NULL, OFFSET_B) == 1 && gequal0(c->b), "zero");
	P(a_gen_one(c, NULL, OFFSET_A) == 1 && gequal1(c->a), "one");
	P(b_gen_one(c, NULL, OFFSET_B) == 1 && gequal1(c->b), "one");
	REACH("coef");
}
