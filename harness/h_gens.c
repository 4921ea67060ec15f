/* The generator stage: which subgroups are listed and with which data. */
#include "hs.h"
#include "gen/gens.h"
#ifndef GMAX
#define GMAX 24
#endif
#ifndef GMAX2
#define GMAX2 4
#endif
#ifndef NG /* number of invariant factors of the group */
#define NG 1
#endif
#ifndef DIGITS
#define DIGITS 1
#endif
#ifndef NGENS
#define NGENS 2
#endif
static val_t n1, n2, n;
static curve_t *group_curve(void) {
	n2 = 1;
	if (NG == 2) { /* n2 | n1 */
		n2 = (val_t)nd_range(2, GMAX2);
		n1 = (val_t)((mag_t)n2 * (mag_t)nd_range(1, GMAX / 2));
		ASSUME(n1 <= GMAX);
	} else if (NG == 1) n1 = (val_t)nd_range(2, GMAX);
	else n1 = 1;
	n = (val_t)((mag_t)n1 * (mag_t)n2);
	curve_t *c = hs_curve(251, n1, n2);
	c->order = pm_mk(n);
	obj_insert_shallow(c->curve, 1, c->order);
	return c;
}
static void check_gen(curve_t *c, subgroup_t *s) {
	P(s && s->generator, "a subgroup has a generator");
	point_t *g = s->generator;
	P(g->point && g->order && g->cofactor, "the generator is complete");
	P(pm_live(g->point) && pm_live(g->order) && pm_live(g->cofactor), "what is recorded is live");
	val_t o = pm_v(g->order);
	P(pm_ptorder(c->curve, g->point) == o, "the generator has exactly the stated order");
	P((unsigned)o * (unsigned)pm_v(g->cofactor) == (unsigned)n, "the cofactor is the curve order divided by it");
	P(s->npoints == 0 && s->points == NULL, "no points yet");
}
/* the subgroup spanned by the listed points is the whole group: there is no
 * nontrivial character of Z/n1 x Z/n2 that vanishes on all of them (a
 * character is (u, v): (x, y) -> u x / n1 + v y / n2 mod 1) */
static void check_span(curve_t *c, size_t from) {
	val_t u = pm_between(0, n1 - 1), v = pm_between(0, n2 - 1);
	val_t k = pm_fdiv(n1, n2); /* u x + v k y = 0 mod n1 */
	bool vanish = true;
	for (size_t i = 0; i < NG; i++) {
		GEN p = c->generators[from + i]->generator->point;
		val_t w = pm_mod((val_t)((mag_t)u * (mag_t)p[1]) + (val_t)((mag_t)v * (mag_t)k * (mag_t)p[2]), n1);
		if (w != 0) vanish = false;
	}
	P(!vanish || (u == 0 && v == 0), "the generators span the group");
}
void h_any(void) {
	pm_watch_init();
	curve_t *c = group_curve();
	int r = gens_gen_any(c, NULL, OFFSET_GENERATORS);
	P(r == 1, "succeeds");
	P(c->ngens == NG, "one subgroup per invariant factor");
	for (size_t i = 0; i < NG; i++) check_gen(c, c->generators[i]);
	if (NG) check_span(c, 0);
	P(pm_v(c->order) == n, "the order is untouched");
	REACH("any");
}
void h_unroll(void) {
	pm_watch_init();
	curve_t *c = group_curve();
	c->ngens = NG;
	c->generators = subgroups_new(NG);
	for (size_t i = 0; i < NG; i++) hs_gen(c, i, i == 0, i);
	P(gens_unroll(c, 0, 0) == -1, "unroll goes back one stage");
	P(c->generators == NULL, "unroll drops the generators");
	P(gens_unroll(c, 0, 0) == -1, "a second unroll is harmless");
	REACH("unrolled");
}
void h_one(void) {
	pm_watch_init();
	curve_t *c = group_curve();
	int r = gens_gen_one(c, NULL, OFFSET_GENERATORS);
	if (NG == 2) {
		P(r == -5, "a curve without a single generator is redrawn");
	} else {
		P(r == 1, "a cyclic curve is accepted");
		P(c->ngens == NG, "a unique generator");
		for (size_t i = 0; i < NG; i++) check_gen(c, c->generators[i]);
		if (NG) check_span(c, 0);
	}
	REACH("one");
}
void h_cofactor(void) {
	pm_watch_init();
	curve_t *c = group_curve();
	pari_ulong h = nd_range(1, GMAX * GMAX2);
	/* what the order stage has established */
	ASSUME(pm_mod(n, (val_t)h) == 0);
	val_t q = pm_fdiv(n, (val_t)h);
	ASSUME(pm_isprime_v(q));
	arg_t a = {&h, 1, NULL};
	int r = gens_gen_cofactor(c, &a, OFFSET_GENERATORS);
	P(r == 1, "the subgroup exists and is found");
	P(c->ngens == NG + 1, "the requested subgroup and the generators");
	for (size_t i = 0; i < NG + 1; i++) check_gen(c, c->generators[i]);
	P(pm_v(c->generators[0]->generator->order) == q, "the first subgroup has the order of the curve divided by the cofactor");
	P(pm_v(c->generators[0]->generator->cofactor) == (val_t)h, "with the requested cofactor");
	check_span(c, 1);
	REACH("cofactor");
}
/* the checks on the generators */
static curve_t *checked_curve(val_t p) {
	curve_t *c = hs_curve(p, 1, 1);
	c->ngens = NGENS;
	c->generators = subgroups_new(NGENS);
	c->order = pm_mk(1);
	for (int i = 0; i < NGENS; i++) {
		subgroup_t *s = subgroup_new();
		s->generator = point_new();
		s->generator->point = pm_mkpt(0, 0);
		s->generator->order = pm_mk((val_t)nd_range(1, OMAX));
		s->generator->cofactor = gen_1;
		c->generators[i] = s;
	}
	return c;
}
void h_anomalous(void) {
	pm_watch_init();
	val_t p = (val_t)nd_range(3, 251);
	curve_t *c = checked_curve(p);
	cfg->field = nd_bool() ? FIELD_BINARY : FIELD_PRIME;
	bool bad = false;
	for (int i = 0; i < NGENS; i++) if (pm_v(c->generators[i]->generator->order) == p) bad = true;
	if (cfg->field == FIELD_BINARY) bad = false;
	P(gens_check_anomalous(c, NULL, OFFSET_GENERATORS) == (bad ? -5 : 1), "refused exactly when a generator has the order of the prime field");
	REACH("anomalous");
	if (bad) REACH("bad");
}
/* embedding degree: smallest k > 0 with q | p^k - 1; none when p divides q */
static val_t embdeg(val_t p, val_t q) {
	if (pm_mod(q, p) == 0) return 0;
	if (q == 1) return 1;
	val_t w = 1, k = 0;
	for (int i = 1; i <= OMAX; i++) {
		w = pm_mod((val_t)((mag_t)w * (mag_t)pm_mod(p, q)), q);
		if (k == 0 && w == 1) k = i;
	}
	return k;
}
void h_embedding(void) {
	pm_watch_init();
	val_t p = (val_t)nd_range(3, 31);
	ASSUME(pm_isprime_v(p));
	curve_t *c = checked_curve(p);
	cfg->field = nd_bool() ? FIELD_BINARY : FIELD_PRIME;
	char *s = pm_mkstr(DIGITS, '0', '9');
	if (DIGITS == 2) ASSUME(s[0] != '0');
	val_t lim = 0;
	for (int i = 0; i < DIGITS; i++) lim = lim * 10 + (val_t)(s[i] - '0');
	arg_t a = {s, 1, NULL};
	bool bad = false;
	for (int i = 0; i < NGENS; i++) if (embdeg(p, pm_v(c->generators[i]->generator->order)) <= lim) bad = true;
	if (cfg->field == FIELD_BINARY) bad = false;
	P(gens_check_embedding(c, &a, OFFSET_GENERATORS) == (bad ? -5 : 1), "accepted exactly when every embedding degree exceeds the limit");
	for (int i = 0; i < NGENS; i++) P(pm_live(c->generators[i]->generator->order), "the generators are left alone");
	REACH("embedding");
	if (bad) REACH("bad");
}
