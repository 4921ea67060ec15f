/* NUMS curves: field, coefficients, order and generator of the deterministic procedure;
 * supersingular curves. */
#include "hs.h"
#include "exhaustive/nums.h"
#include "cm/supersingular.h"
#ifndef PMIN
#define PMIN 2
#endif
#ifndef PMAX
#define PMAX 499
#endif
#ifndef NB
#define NB 8
#endif
#ifndef KQ
#define KQ 0
#endif
static config_t the_cfg;
static curve_t *crv;
static val_t p;
static void setup(void) {
	pm_watch_init();
	cfg = &the_cfg;
	crv = curve_new();
}
static void field_of(void) {
	p = (val_t)nd_range(PMIN, PMAX);
	ASSUME(pm_isprime_v(p));
	crv->field = pm_mk(p);
}
void h_field(void) {
	setup();
	ulong bits = nd_range(2, 9);
	cfg->bits = bits;
	P(nums_gen_field(crv, NULL, OFFSET_FIELD) == 1 && crv->field && pm_live(crv->field), "a field");
	val_t f = pm_v(crv->field), top = (val_t)1 << bits;
	P(f < top && f > 0 && pm_isprime_v(f) && (f & 3) == 3, "a prime below 2^bits, 3 modulo 4");
	for (val_t c = 1; c < 64; c += 4) {
		val_t q = top - c;
		P(!(q > f && pm_isprime_v(q)), "no larger one");
	}
	REACH("field");
}
void h_a(void) {
	setup();
	field_of();
	P(nums_gen_a(crv, NULL, OFFSET_A) == 1 && pm_live(crv->a), "a coefficient");
	P(typ(crv->a) == t_INTMOD && pm_v(gel(crv->a, 1)) == p && pm_v(gel(crv->a, 2)) == pm_mod(-3, p), "a is p - 3");
	REACH("a");
}
/* b: 1, then (2 gives a singular curve) 3, 4, ...; again from 1 for another curve */
void h_b(void) {
	setup();
	field_of();
	curve_t *two = curve_new();
	two->field = crv->field;
	for (int k = 0; k < 2; k++) {
		curve_t *c = k ? two : crv;
		val_t want = 1;
		int n = k ? 3 : NB;
		for (int i = 0; i < n; i++) {
			P(nums_gen_b(c, NULL, OFFSET_B) == 1 && pm_live(c->b), "a coefficient");
			P(typ(c->b) == t_INTMOD && pm_v(gel(c->b, 1)) == p && pm_v(gel(c->b, 2)) == pm_mod(want, p), "b takes the successive values from 1");
			if (i == 0) want++;
			want++;
		}
	}
	P(pm_clone_live <= 1, "the last value alone is remembered");
	nums_quit();
	REACH("b");
}
#ifdef STAGES
/* the order of the curve as ellsea(.., 1) tells it: zero when it is composite (or the order) */
static val_t order;
static bool told;
GEN ellsea(GEN E, long smallfact) {
	P(E == crv->curve, "the order of this curve");
	told = !smallfact || pm_isprime_v(order) || nd_bool();
	return told ? pm_mk(order) : gen_0;
}
void h_order(void) {
	setup();
	field_of();
	order = (val_t)nd_range(1, 2 * PMAX);
	crv->curve = pm_mkE(p, 1, 1, order, 1);
	val_t t = p + 1 - order;
	ASSUME(t * t <= 4 * p); /* Hasse */
	int r = nums_gen_order(crv, NULL, OFFSET_ORDER);
	if (pm_isprime_v(order) && pm_isprime_v(p + 1 + t)) {
		P(r == 1 && pm_live(crv->order) && pm_v(crv->order) == order, "the order of the curve");
		GEN o = obj_check(crv->curve, 1);
		P(o && pm_live(o) && pm_v(o) == order, "and the order kept for later computations");
		REACH("accepted");
	} else {
		P(r == -2, "a curve whose order or whose twist's order is not prime sends the run back to b");
		REACH("refused");
	}
}
int cmpii(GEN x, GEN y) { val_t a = pm_v(x), b = pm_v(y); return a < b ? -1 : a > b; }
GEN lift(GEN x) { return typ(x) == t_INTMOD ? gel(x, 2) : x; }
static val_t root[6]; /* a root for x = 1..6, 0 for none */
static val_t xs[6];
GEN ellordinate(GEN E, GEN x, long prec) {
	(void)prec;
	P(E == crv->curve, "a point of this curve");
	val_t v = pm_v(typ(x) == t_INTMOD ? gel(x, 2) : x);
	P(v >= 1, "from x = 1 on");
	P(v <= NB, "no point with a lesser x is passed over");
	val_t r = 0;
	for (int i = 0; i < NB && i < 6; i++) if (v == i + 1) r = root[i];
	if (r == 0) return cgetg(1, t_VEC);
	return mkvec2(mkintmod(pm_mk(r), crv->field), mkintmod(pm_mk(p - r), crv->field));
}
GEN ellorder(GEN E, GEN pt, GEN o) {
	(void)o;
	P(E == crv->curve && typ(pt) == t_VEC && lg(pt) == 3, "the order of the generator");
	return pm_mk(order);
}
void h_gens(void) {
	setup();
	field_of();
	order = (val_t)nd_range(2, PMAX);
	ASSUME(pm_isprime_v(order));
	crv->curve = pm_mkE(p, 1, 1, order, 1);
	crv->order = pm_mk(order);
	/* no point on the curve has an x below NB */
	for (int i = 0; i < NB; i++) {
		root[i] = i == NB - 1 ? (val_t)nd_range(1, PMAX) : (val_t)0;
		ASSUME(root[i] < p);
	}
	ASSUME(p > NB);
	int r = nums_gen_gens(crv, NULL, OFFSET_GENERATORS);
	P(r == 1 && crv->ngens == 1 && crv->generators && crv->generators[0] && crv->generators[0]->generator, "one generator");
	point_t *G = crv->generators[0]->generator;
	P(pm_live(G->point) && pm_live(G->order) && pm_live(G->cofactor), "live values");
	GEN x = gel(G->point, 1), y = gel(G->point, 2);
	val_t r0 = root[NB - 1], low = r0 < p - r0 ? r0 : p - r0;
	P(typ(x) == t_INTMOD && pm_v(gel(x, 2)) == NB && pm_v(gel(x, 1)) == p, "the least x of a point of the curve");
	P(typ(y) == t_INTMOD && pm_v(gel(y, 2)) == low, "and the lesser y");
	P(pm_v(G->order) == order && pm_v(G->cofactor) == 1, "its order and cofactor");
	P(crv->generators[0]->npoints == 0, "no points yet");
	REACH("generator");
}
#endif
/* ---- supersingular ---------------------------------------------------------------- */
#ifdef SUPER
#ifdef VCBMC
typedef unsigned __CPROVER_bitvector[16] s_t;
#else
typedef unsigned _BitInt(16) s_t;
#endif
static val_t mm(val_t a, val_t b) { return (val_t)(mag_t)(s_t)((s_t)((s_t)a * (s_t)b) % (s_t)p); } /* operands below 256 */
static val_t red(GEN x) { return pm_mod(pm_v(x), p); }
GEN Fp_mul(GEN a, GEN b, GEN m) { P(pm_v(m) == p, "modulo the field prime"); return pm_mk(mm(red(a), red(b))); }
GEN Fp_sub(GEN a, GEN b, GEN m) { P(pm_v(m) == p, "modulo the field prime"); val_t d = red(a) - red(b); return pm_mk(d < 0 ? d + p : d); }
GEN Fp_div(GEN a, GEN b, GEN m) {
	P(pm_v(m) == p, "modulo the field prime");
	val_t q = (val_t)nd_range(0, PMAX), d = red(b);
	P(d != 0, "no division by zero");
	ASSUME(q < p && mm(q, d) == red(a));
	return pm_mk(q);
}
/* the character by its definition: roots of the kind Euler's criterion decides, over the small primes asked for */
long kronecker(GEN x, GEN y) {
	val_t q = pm_v(y), a;
	MODEL(q > 2 && q < 64 && pm_isprime_v(q), "the character modulo a small odd prime");
	s_t r = (s_t)pm_v(x) % (s_t)q;
	if (r == 0) return 0;
	for (s_t s = 1; s < 32; s++) if (s <= (s_t)q / 2 && (s_t)(s * s) % (s_t)q == r) return 1;
	(void)a;
	return -1;
}
static val_t rt;
static unsigned nroots;
GEN polclass(GEN D, long inv, long v) {
	(void)v;
	val_t d = pm_v(D);
	P(inv == 0, "the class polynomial of j");
	P(d < 0 && pm_isprime_v(-d) && ((-d) & 3) == 3, "a discriminant -q, q prime and 3 modulo 4");
	/* p is inert in Q(sqrt(-q)): -q is no square modulo p */
	P(pm_mod(d, p) != 0, "p does not divide the discriminant");
	val_t any = (val_t)nd_range(1, PMAX); /* no root */
	P(any >= p || pm_mod(mm(any, any) - d, p) != 0, "p is inert for the discriminant");
	nroots = 1;
	return cgetg(1, t_VEC);
}
GEN FpX_roots(GEN H, GEN f) {
	(void)H;
	P(nroots == 1 && pm_v(f) == p, "roots of the class polynomial in the field");
	rt = (val_t)nd_range(1, PMAX);
	/* j = 0 and j = 1728 are ordinary for p = 1 mod 12, so no such root */
	ASSUME(rt < p && rt != pm_mod(1728, p));
	return mkvec(pm_mk(rt));
}
void h_super(void) {
	setup();
	field_of();
	int r = supersingular_gen_equation(crv, NULL, OFFSET_B);
	if (p == 2) { P(r < 0, "not over F_2"); return; }
	P(r == 1 && pm_live(crv->a) && pm_live(crv->b) && typ(crv->a) == t_INTMOD && typ(crv->b) == t_INTMOD && pm_live(gel(crv->a, 2)) && pm_live(gel(crv->b, 2)) && pm_live(gel(crv->a, 1)) && pm_live(gel(crv->b, 1)), "two coefficients");
	P(pm_v(gel(crv->a, 1)) == p && pm_v(gel(crv->b, 1)) == p, "in the field");
	val_t a = pm_v(gel(crv->a, 2)), b = pm_v(gel(crv->b, 2));
	P(a >= 0 && a < p && b >= 0 && b < p, "reduced");
	if (nroots) {
		/* j = 1728 4a^3 / (4a^3 + 27b^2) is the root */
		val_t a3 = mm(pm_mod(4, p), mm(a, mm(a, a))), d = pm_mod(a3 + mm(pm_mod(27, p), mm(b, b)), p);
		P(d != 0, "not singular");
		P(mm(pm_mod(1728, p), a3) == mm(rt, d), "the j-invariant is a root of the class polynomial");
		REACH("class polynomial");
	} else {
		/* y^2 = x^3 + ax for p = 3 mod 4, y^2 = x^3 + b for p = 2 mod 3 */
		P(((p & 3) == 3 && a != 0 && b == 0) || (p % 3 == 2 && a == 0 && b != 0), "a curve of j-invariant 1728 or 0, supersingular for this prime");
		REACH("small j");
	}
}
void h_super_order(void) {
	setup();
	field_of();
	ASSUME(p > 2);
	crv->curve = pm_mkE(p, 1, 1, p + 1, 1);
	P(supersingular_gen_order(crv, NULL, OFFSET_ORDER) == 1, "an order");
	P(pm_live(crv->order) && pm_v(crv->order) == p + 1, "p + 1");
	GEN o = obj_check(crv->curve, 1);
	P(o && pm_v(o) == p + 1, "and the order kept for later computations");
	P(pm_v(crv->field) == p, "the field is untouched");
	REACH("order");
}
#endif
