/* Copies of curves and their parts: complete, independent, freed once. */
#include "hs.h"
#include "gen/seed.h"
#include "util/bits.h"
#ifndef CLONE
#define CLONE 0
#endif
#ifndef NGEN
#define NGEN 2
#endif
#ifndef NPTS
#define NPTS 1
#endif
#ifndef HAVE /* which members are present (bit mask) */
#define HAVE 0xffff
#endif
#ifndef STYPE
#define STYPE SEED_NONE
#endif
#ifndef SRCCLONE /* the original holds clones (1) or stack objects (0) */
#define SRCCLONE 0
#endif
/* allocated with its type, which keeps the encoding small (the constructor is
 * decided with the memory helpers) */
subgroup_t *subgroup_new(void) {
	subgroup_t *s = malloc(sizeof(subgroup_t));
	pm_try_live++;
	s->generator = NULL;
	s->npoints = 0;
	s->points = NULL;
	return s;
}
static GEN own(GEN x) { return SRCCLONE ? gclone(x) : x; }
static GEN num(void) { return own(pm_mk((val_t)nd_bits(8))); }
static GEN mod(void) { return own(mkintmod(pm_mk((val_t)nd_bits(8)), pm_mk(251))); }
static point_t *mkpoint(void) {
	point_t *p = point_new();
	p->point = own(mkvec2(pm_mk((val_t)nd_bits(8)), pm_mk((val_t)nd_bits(8))));
	p->order = num();
	if (HAVE & 0x400) p->cofactor = num();
	return p;
}
static subgroup_t *mksub(void) {
	subgroup_t *s = subgroup_new();
	s->generator = mkpoint();
	if (NPTS) {
		s->npoints = NPTS;
		s->points = points_new(NPTS);
		for (int i = 0; i < NPTS; i++) s->points[i] = mkpoint();
	}
	return s;
}
static bits_t *mkbits(size_t n) {
	bits_t *b = bits_new(n);
	for (size_t i = 0; i < n / 8; i++) b->bits[i] = (unsigned char)nd_bits(8);
	return b;
}
static seed_t *mkseed(void) {
	seed_t *s = seed_new();
	s->type = STYPE;
	s->seed = mkbits(24);
	if (HAVE & 1) {
		s->hash20 = try_calloc(20);
		for (int i = 0; i < 20; i++) s->hash20[i] = (unsigned char)nd_bits(8);
	}
	switch (STYPE) {
		case SEED_ANSI: s->ansi.t = num(); s->ansi.s = num(); s->ansi.h = num(); if (HAVE & 2) s->ansi.r = num(); break;
		case SEED_BRAINPOOL:
		case SEED_BRAINPOOL_RFC:
			s->brainpool.update_seed = nd_bool();
			s->brainpool.w = (long)nd_bits(8);
			s->brainpool.v = (long)nd_bits(8);
			if (HAVE & 2) s->brainpool.seed_a = mkbits(16);
			if (HAVE & 4) s->brainpool.seed_b = mkbits(16);
			s->brainpool.mult = num();
			break;
		case SEED_FAMILY: s->family.z = num(); break;
		default: break;
	}
	return s;
}
static GEN mkcurveobj(void) {
	GEN E = cgetg(17, t_VEC);
	for (long i = 1; i <= 16; i++) gel(E, i) = gen_0;
	gel(E, 4) = pm_mk((val_t)nd_bits(8));
	gel(E, 5) = pm_mk((val_t)nd_bits(8));
	gel(E, 16) = zerovec(5);
	E = own(E);
	return E;
}
static curve_t *mkcurve(void) {
	curve_t *c = curve_new();
	if (HAVE & 8) c->seed = mkseed();
	c->field = own(pm_mk((val_t)nd_bits(8)));
	if (HAVE & 0x10) c->a = mod();
	if (HAVE & 0x20) c->b = mod();
	if (HAVE & 0x40) c->curve = mkcurveobj();
	if (HAVE & 0x80) c->order = num();
	if (HAVE & 0x100) {
		c->ngens = NGEN;
		c->generators = subgroups_new(NGEN);
		for (int i = 0; i < NGEN; i++) c->generators[i] = mksub();
	}
	if (HAVE & 0x200) {
		c->meta.j_invariant = num();
		c->meta.discriminant = num();
		c->meta.frobenius_trace = num();
		if (HAVE & 0x800) {
			c->meta.cm_discriminant = num();
			c->meta.embedding_degree = num();
			c->meta.conductor = num();
		}
	}
	return c;
}
/* ---- comparison: same data, other memory ------------------------------------- */
static void same_(GEN x, GEN y, int depth) {
	P((x == NULL) == (y == NULL), "the copy has what the original has");
	if (!x) return;
	P(typ(x) == typ(y) && lg(x) == lg(y), "a copy is of the same kind");
	if (x == gen_0 || x == gen_1 || x == gen_2) return; /* constants may be shared */
	P(x != y, "a copy shares no memory with the original");
	if (typ(x) == t_INT) { P(pm_v(x) == pm_v(y), "a copy has the same value"); return; }
	if (typ(x) == t_VECSMALL) { for (long i = 1; i < lg(x); i++) P(x[i] == y[i], "a copy has the same value"); return; }
	MODEL(depth > 0, "depth of an object");
	if (depth > 0) for (long i = 1; i < lg(x); i++) same_(gel(x, i), gel(y, i), depth - 1);
}
static void same(GEN x, GEN y, int depth) {
	same_(x, y, depth);
	if (CLONE && y) P(isclone(y), "a clone does not live on the stack");
}
static void same_bits(const bits_t *x, const bits_t *y) {
	P((x == NULL) == (y == NULL), "the copy has what the original has");
	if (!x) return;
	P(x != y && x->bits != y->bits, "a copy shares no memory with the original");
	P(x->bitlen == y->bitlen && x->sign == y->sign, "a copy has the same length");
	for (size_t i = 0; i < x->bitlen / 8; i++) P(x->bits[i] == y->bits[i], "a copy has the same bits");
}
static void same_point(point_t *x, point_t *y) {
	P((x == NULL) == (y == NULL), "the copy has what the original has");
	if (!x) return;
	P(x != y, "a copy shares no memory with the original");
	same(x->point, y->point, 2);
	same(x->order, y->order, 0);
	same(x->cofactor, y->cofactor, 0);
}
static void same_sub(subgroup_t *x, subgroup_t *y) {
	P((x == NULL) == (y == NULL), "the copy has what the original has");
	if (!x) return;
	P(x != y, "a copy shares no memory with the original");
	same_point(x->generator, y->generator);
	P(x->npoints == y->npoints && (x->points == NULL) == (y->points == NULL), "the copy has as many points");
	if (x->points) {
		P(x->points != y->points, "a copy shares no memory with the original");
		for (size_t i = 0; i < NPTS; i++) same_point(x->points[i], y->points[i]);
	}
}
static void same_seed(seed_t *x, seed_t *y) {
	P((x == NULL) == (y == NULL), "the copy has what the original has");
	if (!x) return;
	P(x != y, "a copy shares no memory with the original");
	same_bits(x->seed, y->seed);
	P((x->hash20 == NULL) == (y->hash20 == NULL), "the copy has what the original has");
	if (x->hash20) {
		P(x->hash20 != y->hash20, "a copy shares no memory with the original");
		for (int i = 0; i < 20; i++) P(x->hash20[i] == y->hash20[i], "a copy has the same hash");
	}
	P(x->type == y->type && y->type == STYPE, "the copy is a seed of the same procedure");
	switch (STYPE) {
		case SEED_ANSI: same(x->ansi.t, y->ansi.t, 0); same(x->ansi.s, y->ansi.s, 0); same(x->ansi.h, y->ansi.h, 0); same(x->ansi.r, y->ansi.r, 0); break;
		case SEED_BRAINPOOL:
		case SEED_BRAINPOOL_RFC:
			P(x->brainpool.update_seed == y->brainpool.update_seed && x->brainpool.w == y->brainpool.w && x->brainpool.v == y->brainpool.v, "the copy has the same parameters");
			same_bits(x->brainpool.seed_a, y->brainpool.seed_a);
			same_bits(x->brainpool.seed_b, y->brainpool.seed_b);
			same(x->brainpool.mult, y->brainpool.mult, 0);
			break;
		case SEED_FAMILY: same(x->family.z, y->family.z, 0); break;
		default: break;
	}
}
static void same_curve(curve_t *x, curve_t *y) {
	P(x && y && x != y, "a copy is another curve");
	same_seed(x->seed, y->seed);
	same(x->field, y->field, 1);
	same(x->a, y->a, 1);
	same(x->b, y->b, 1);
	same(x->curve, y->curve, 2);
	same(x->order, y->order, 0);
	P((x->generators == NULL) == (y->generators == NULL) && x->ngens == y->ngens, "the copy has as many subgroups");
	if (x->generators) {
		P(x->generators != y->generators, "a copy shares no memory with the original");
		for (size_t i = 0; i < NGEN; i++) same_sub(x->generators[i], y->generators[i]);
	}
	same(x->meta.j_invariant, y->meta.j_invariant, 0);
	same(x->meta.discriminant, y->meta.discriminant, 0);
	same(x->meta.frobenius_trace, y->meta.frobenius_trace, 0);
	same(x->meta.cm_discriminant, y->meta.cm_discriminant, 0);
	same(x->meta.embedding_degree, y->meta.embedding_degree, 0);
	same(x->meta.conductor, y->meta.conductor, 0);
}
static void all_freed(void) {
	P(pm_try_live == 0, "freeing releases everything that was allocated");
	P(pm_clone_live == 0, "freeing releases everything that was cloned");
}
void h_curve(void) {
	curve_t *o = mkcurve();
	curve_t *k = CLONE ? curve_new_clone(o) : curve_new_copy(o);
	same_curve(o, k);
	curve_t *r = k; /* freeing one never affects the other */
	curve_free(&o);
	P(o == NULL, "freeing clears the handle");
	curve_free(&o);
	k = CLONE ? curve_new_clone(r) : curve_new_copy(r);
	same_curve(r, k);
	curve_free(&r);
	curve_free(&k);
	P(r == NULL && k == NULL, "freeing clears the handle");
	all_freed();
	REACH("curve");
}
void h_subs(void) {
	subgroup_t *v[NGEN], **o = v, **k;
	for (int i = 0; i < NGEN; i++) v[i] = mksub();
	k = CLONE ? subgroups_new_clone(o, NGEN) : subgroups_new_copy(o, NGEN);
	P(k != NULL, "a vector");
	for (int i = 0; i < NGEN; i++) same_sub(o[i], k[i]);
	subgroup_t *s = CLONE ? subgroup_new_clone(o[0]) : subgroup_new_copy(o[0]);
	same_sub(o[0], s);
	for (int i = 0; i < NGEN; i++) {
		subgroup_free_deep(&v[i]);
		P(v[i] == NULL, "freeing clears the handle");
	}
	same_sub(s, k[0]);
	subgroup_free_deep(&s);
	subgroups_free_deep(&k, NGEN);
	P(k == NULL, "freeing clears the handle");
	subgroups_free_deep(&k, NGEN);
	all_freed();
	REACH("subs");
}
void h_points(void) {
	point_t *v[NGEN], **o = v, **k;
	for (int i = 0; i < NGEN; i++) v[i] = mkpoint();
	k = CLONE ? points_new_clone(o, NGEN) : points_new_copy(o, NGEN);
	P(k != NULL, "a vector");
	for (int i = 0; i < NGEN; i++) same_point(o[i], k[i]);
	point_t *s = CLONE ? point_new_clone(o[0]) : point_new_copy(o[0]);
	same_point(o[0], s);
	for (int i = 0; i < NGEN; i++) {
		point_free(&v[i]);
		P(v[i] == NULL, "freeing clears the handle");
	}
	same_point(s, k[0]);
	point_free(&s);
	points_free_deep(&k, NGEN);
	P(k == NULL, "freeing clears the handle");
	points_free_deep(&k, NGEN);
	all_freed();
	REACH("points");
}
void h_seed(void) {
	seed_t *o = mkseed();
	seed_t *k = CLONE ? seed_new_clone(o) : seed_new_copy(o);
	same_seed(o, k);
	seed_free(&o);
	P(o == NULL, "freeing clears the handle");
	seed_t *r = CLONE ? seed_new_clone(k) : seed_new_copy(k);
	same_seed(k, r);
	seed_free(&k);
	seed_free(&r);
	seed_free(&r);
	all_freed();
	REACH("seed");
}
void h_seed_unroll(void) {
	curve_t *c = curve_new();
	c->seed = mkseed();
	P(seed_unroll(c, 0, 0) == -1 && c->seed == NULL, "undoing the seed stage drops the seed");
	P(seed_unroll(c, 0, 0) == -1, "undoing twice is harmless");
	curve_free(&c);
	all_freed();
	REACH("unroll");
}
