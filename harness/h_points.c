/* The points stage: which subgroups are listed, and that every listed point
 * has the order printed with it. */
#include "hs.h"
#include "gen/point.h"
#include "math/subgroup.h"
/* shape of the generator's order: KEXP = exponents of its distinct primes */
#ifndef KEXP
#define KEXP 1
#endif
static const int kexp[] = {KEXP};
#define KN ((int)(sizeof kexp / sizeof *kexp))
#ifndef HCOF
#define HCOF 1
#endif
#ifndef MODE
#define MODE 0
#endif
#ifndef PMAX
#define PMAX 31
#endif
static val_t any_order(void) {
	val_t p[8];
	for (int i = 0; i < KN; i++) p[i] = (val_t)nd_range(2, PMAX);
	return pm_reg_factor(KN, p, kexp);
}
static curve_t *cyclic(val_t n, val_t h) {
	/* a cyclic curve of order n*h whose listed generator has order n */
	curve_t *c = hs_curve(251, n * h, 1);
	c->order = pm_mk(n * h);
	c->ngens = 1;
	c->generators = subgroups_new(1);
	hs_gen(c, 0, h, 0);
	return c;
}
static void check_listed(curve_t *c, int want_prime, int want_comp) {
	subgroup_t *s = c->generators[0];
	val_t n = pm_v(s->generator->order);
	/* completeness: the divisors are counted by the shape of the order */
	unsigned all = 1;
	for (int i = 0; i < KN; i++) all *= (unsigned)kexp[i] + 1;
	unsigned expect = (want_comp ? all - 1 - KN : 0) + (want_prime ? KN : 0);
	P(s->npoints == expect, "as many subgroups are listed as exist");
	val_t last = 0;
	for (size_t i = 0; i < expect; i++) {
		point_t *pt = s->points[i];
		P(pt != NULL && pt->point != NULL && pt->order != NULL, "every listed subgroup has a point");
		val_t o = pm_v(pt->order);
		P(o > last, "each subgroup is listed once, in ascending order");
		last = o;
		P(o > 1 && pm_mod(n, o) == 0, "a listed order divides the generator order");
		P(pm_ptorder(c->curve, pt->point) == o, "the point has exactly the listed order");
		P(pm_live(pt->point) && pm_live(pt->order), "listed values are live");
		bool pr = pm_isprime_v(o);
		P(pr ? want_prime : want_comp, "only the requested kind of subgroup is listed");
	}
}
void h_enum(void) {
	pm_watch_init();
	val_t n = any_order();
	curve_t *c = cyclic(n, HCOF);
	int r, pr, co;
	unsigned all_ = 1, tot = 0;
	for (int i = 0; i < KN; i++) { all_ *= (unsigned)kexp[i] + 1; tot += (unsigned)kexp[i]; }
	pm_hint_prime = tot == 1;
	pm_hint_set = MODE == 1 ? (long)all_ - 1 : (long)all_ - 1 - KN;
#if MODE == 0
	r = points_gen_prime(c, NULL, OFFSET_POINTS); pr = 1; co = 0;
#elif MODE == 1
	r = points_gen_allgroups(c, NULL, OFFSET_POINTS); pr = 1; co = 1;
#else
	r = points_gen_nonprime(c, NULL, OFFSET_POINTS); pr = 0; co = 1;
#endif
	P(r == 1, "the points stage succeeds");
	check_listed(c, pr, co);
	P(pm_v(c->generators[0]->generator->order) == n && pm_v(c->order) == n * HCOF, "generator data untouched");
	REACH("enum");
	P(points_unroll(c, 0, 0) == -1, "unroll goes back one stage");
	P(c->generators[0]->points == NULL, "unroll drops the points");
	P(c->generators[0]->generator != NULL, "unroll keeps the generator");
	REACH("unrolled");
}
/* random points on a curve with one or two generators */
#ifndef NG
#define NG 1
#endif
#ifndef NPTS
#define NPTS 2
#endif
#ifndef GMAX
#define GMAX 24
#endif
#ifndef GMAX2
#define GMAX2 4
#endif
static curve_t *rnd_curve(void) {
	val_t n1, n2 = 1;
	if (NG == 2) { /* n2 | n1 */
		n2 = (val_t)nd_range(2, GMAX2);
		n1 = (val_t)((mag_t)n2 * (mag_t)nd_range(1, GMAX / GMAX2));
	} else n1 = (val_t)nd_range(2, GMAX);
	curve_t *c = hs_curve(251, n1, n2);
	c->order = pm_mk((val_t)((mag_t)n1 * (mag_t)n2));
	c->ngens = NG;
	c->generators = subgroups_new(NG);
	hs_gen(c, 0, 1, 0);
	if (NG == 2) hs_gen(c, 1, (val_t)pm_between(0, n1 - 1), 1);
	return c;
}
static void check_random(curve_t *c, size_t want) {
	size_t total = 0;
	for (size_t g = 0; g < NG; g++) {
		subgroup_t *s = c->generators[g];
		total += s->npoints;
		P(s->npoints <= want, "number of points");
		for (size_t i = 0; i < want; i++) {
			if (i >= s->npoints) continue;
			point_t *pt = s->points[i];
			P(pt && pt->point && pt->order, "a random point is recorded");
			P(!ell_is_inf(pt->point), "a listed point is an affine point");
			val_t o = pm_v(pt->order);
			P(pm_ptorder(c->curve, pt->point) == o, "the listed order is the order of the point");
			if (g == 0) P(pt->point[2] == 0, "the point lies in its generator's subgroup");
			else P(pm_mod(pm_v(s->generator->order), o) == 0, "the point lies in its generator's subgroup");
		}
	}
	P(total == want, "exactly the requested number of points");
}
void h_random(void) {
	pm_watch_init();
	curve_t *c = rnd_curve();
	size_t want = NPTS;
	arg_t a = {&want, 1, NULL};
	P(points_gen_random(c, &a, OFFSET_POINTS) == 1, "succeeds");
	check_random(c, want);
	REACH("random");
}
void h_one(void) {
	pm_watch_init();
	curve_t *c = rnd_curve();
	P(point_gen_random(c, NULL, OFFSET_POINTS) == 1, "succeeds");
	check_random(c, 1);
	REACH("one");
}
/* a point of each requested prime order that exists */
void h_trial(void) {
	pm_watch_init();
	curve_t *c = rnd_curve();
	pari_ulong pr[4];
	for (int i = 0; i < NPTS; i++) { pr[i] = nd_range(2, 13); ASSUME(pm_isprime_v((val_t)pr[i])); }
	for (int i = 0; i < NPTS; i++) for (int j = 0; j < i; j++) ASSUME(pr[j] != pr[i]);
#ifdef KDIV /* how many of the primes divide each generator order */
	for (int g = 0; g < NG; g++) {
		int k = 0;
		for (int i = 0; i < NPTS; i++) k += pm_mod(pm_v(c->generators[g]->generator->order), (val_t)pr[i]) == 0;
		ASSUME(k == 0 || k == KDIV);
	}
	pm_hint_glen = KDIV;
#endif
	arg_t a = {pr, NPTS, NULL};
	P(points_gen_trial(c, &a, OFFSET_POINTS) == 1, "succeeds");
	for (size_t g = 0; g < NG; g++) {
		subgroup_t *s = c->generators[g];
		val_t n = pm_v(s->generator->order);
		size_t k = 0;
		for (int i = 0; i < NPTS; i++) {
			if (pm_mod(n, (val_t)pr[i]) != 0) continue;
			P(s->npoints > k, "a point for every requested prime dividing the order");
			point_t *pt = s->points[k++];
			P(pt && pt->point && pm_v(pt->order) == (val_t)pr[i], "listed with that order");
			P(pm_ptorder(c->curve, pt->point) == (val_t)pr[i], "and has that order");
		}
		P(s->npoints == k, "and no other");
	}
	REACH("trial");
}
