/* Curve metadata: what is reported is what the definitions say. */
#include "hs.h"
#include "gen/metadata.h"
#ifndef QMAX
#define QMAX 31
#endif
#ifndef BMAX
#define BMAX 6
#endif
#ifdef VCBMC
#define PM_SMALLINT2 __CPROVER_bitvector[12]
#else
#define PM_SMALLINT2 _BitInt(12)
#endif
#define DMAX (4 * QMAX)
static bool sqfree(val_t v) {
	for (int k = 2; k * k <= DMAX; k++)
		if (pm_mod(v, (val_t)(k * k)) == 0) return false;
	return true;
}
static bool fundamental(val_t d) {
	if (pm_mod(d, 4) == 1) return sqfree(d);
	val_t m = pm_fdiv(d, 4);
	return pm_mod(d, 4) == 0 && (pm_mod(m, 4) == 2 || pm_mod(m, 4) == 3) && sqfree(m);
}
/* n = d f^2 with d a fundamental discriminant, documented */
GEN coredisc2(GEN n) {
	val_t v = pm_v(n);
	if (v >= 0 || v < -DMAX || pm_mod(v, 4) > 1) return mkvec2(n, gen_1); /* not t^2 - 4p: any answer will do */
	val_t f = pm_between(1, 16), d = pm_between(-DMAX, -1);
	ASSUME((val_t)((mag_t)f * (mag_t)f) * d == v && fundamental(d));
	return mkvec2(pm_mk(d), pm_mk(f));
}
/* multiplicative order of a modulo m (invertible), in small arithmetic */
static val_t small_order(val_t a0, val_t m0) {
	unsigned PM_SMALLINT m = (unsigned PM_SMALLINT)m0, a = (unsigned PM_SMALLINT)pm_mod(a0, m0), w = a, e = 0;
	if (m == 1) return 1;
	for (int i = 1; i <= 2 * QMAX; i++) {
		if (e == 0 && w == 1) e = (unsigned PM_SMALLINT)i;
		w = (unsigned PM_SMALLINT)((unsigned PM_SMALLINT2)((unsigned PM_SMALLINT2)w * (unsigned PM_SMALLINT2)a) % (unsigned PM_SMALLINT2)m);
	}
	return (val_t)(mag_t)e;
}
GEN znorder(GEN x, GEN o) {
	(void)o;
	MODEL(typ(x) == t_INTMOD, "znorder(intmod)");
	val_t k = small_order(pm_v(gel(x, 2)), pm_v(gel(x, 1)));
	if (k == 0) pm_fatal("znorder: not invertible");
	return pm_mk(k);
}
static curve_t *c;
static void fresh(void) {
	pm_watch_init();
	c = curve_new();
	c->curve = pm_mkE(31, 1, 1, 1, 1);
}
void h_prime(void) {
	fresh();
	val_t p = (val_t)nd_range(3, QMAX);
	ASSUME(pm_isprime_v(p));
	val_t t = pm_between(-12, 12);
	ASSUME(t * t < 4 * p);
	val_t n = p + 1 - t, j = pm_between(0, p - 1), d = pm_between(1, p - 1);
	c->field = pm_mk(p);
	c->order = pm_mk(n);
	gel(c->curve, 12) = mkintmod(pm_mk(d), c->field);
	gel(c->curve, 13) = mkintmod(pm_mk(j), c->field);
	c->a = mkintmod(gen_1, c->field);
	GEN a = c->a, b = c->b;
	P(metadata_gen(c, NULL, OFFSET_METADATA) == 1, "succeeds");
	metadata_t *m = &c->meta;
	P(m->j_invariant && m->discriminant && m->frobenius_trace && m->embedding_degree && m->cm_discriminant && m->conductor, "everything is reported over a prime field");
	P(pm_live(m->j_invariant) && pm_live(m->discriminant) && pm_live(m->frobenius_trace) && pm_live(m->embedding_degree) && pm_live(m->cm_discriminant) && pm_live(m->conductor), "what is reported is live");
	P(pm_v(m->j_invariant) == j, "the j-invariant of the curve");
	P(pm_v(m->discriminant) == d, "the discriminant of the curve");
	P(pm_v(m->frobenius_trace) == t, "the trace of Frobenius is q + 1 - order");
	val_t cd = pm_v(m->cm_discriminant), f = pm_v(m->conductor);
	P(f >= 1 && cd >= -DMAX && f <= 16, "a positive conductor");
	P(fundamental(cd) && cd < 0, "the CM discriminant is a fundamental discriminant");
	P(cd * f * f == t * t - 4 * p, "the CM discriminant times the square of the conductor is t^2 - 4p");
	val_t k = pm_v(m->embedding_degree);
	/* smallest k > 0 with n | p^k - 1; 0 when p divides the order */
	val_t e = pm_mod(n, p) == 0 ? (val_t)0 : small_order(p, n);
	P(k == e, "the embedding degree is the order of p modulo the curve order");
	P(pm_v(c->field) == p && pm_v(c->order) == n && c->a == a && c->b == b, "the curve is untouched");
	REACH("prime");
}
#ifdef FMASK
/* as decided for the representation of field elements */
GEN field_elementi(GEN x) {
	if (typ(x) == t_FFELT) return pm_mk(pm_ul(pm_ffpoly(x)));
	return lift(x);
}
void h_binary(void) {
	fresh();
	ulong m = BMAX, T = FMASK, j = nd_bits(BMAX), d = nd_bits(BMAX);
	ASSUME(d != 0);
	val_t q = (val_t)1 << m, t = pm_between(-90, 90);
	ASSUME(t * t <= 4 * q);
	c->field = pm_mkff(m == 1 ? 1 : 2, T);
	c->order = pm_mk(q + 1 - t);
	gel(c->curve, 12) = pm_mkff(d, T);
	gel(c->curve, 13) = pm_mkff(j, T);
	/* what an earlier curve may have left */
	c->meta.embedding_degree = gen_1;
	c->meta.conductor = gen_1;
	c->meta.cm_discriminant = gen_1;
	P(metadata_gen(c, NULL, OFFSET_METADATA) == 1, "succeeds");
	metadata_t *x = &c->meta;
	P(x->j_invariant && x->discriminant && x->frobenius_trace, "reported over a binary field");
	P(pm_live(x->j_invariant) && pm_live(x->discriminant) && pm_live(x->frobenius_trace), "what is reported is live");
	P(pm_v(x->j_invariant) == (val_t)j, "the j-invariant of the curve");
	P(pm_v(x->discriminant) == (val_t)d, "the discriminant of the curve");
	P(pm_v(x->frobenius_trace) == t, "the trace of Frobenius is q + 1 - order");
	P(!x->embedding_degree && !x->conductor && !x->cm_discriminant, "nothing is made up over a binary field");
	REACH("binary");
}
#endif
