/* shared vocabulary for harnesses that build curve_t objects */
#ifndef HS_H
#define HS_H
#include "pm_ell.h"
#include "misc/config.h"
#include "misc/types.h"
#include "obj/curve.h"
#include "obj/point.h"
#include "obj/subgroup.h"
#include "exhaustive/arg.h"
#include "exhaustive/exhaustive.h"
#include <stdlib.h>
/* allocated with their types, which keeps the encoding small */
static subgroup_t *hs_subgroup(void) {
	subgroup_t *s = malloc(sizeof(subgroup_t));
	s->generator = NULL;
	s->npoints = 0;
	s->points = NULL;
	return s;
}
static point_t *hs_point(void) {
	point_t *s = malloc(sizeof(point_t));
	s->point = s->order = s->cofactor = NULL;
	return s;
}
/* a curve over F_p whose group is Z/n1 x Z/n2 */
static curve_t *hs_curve(val_t p, val_t n1, val_t n2) {
	curve_t *c = curve_new();
	c->field = pm_mk(p);
	c->curve = pm_mkE(p, 1, 1, n1, n2);
	c->a = ell_get_a4(c->curve);
	c->b = ell_get_a6(c->curve);
	return c;
}
static void hs_gen(curve_t *c, size_t i, val_t x, val_t y) {
	subgroup_t *s = subgroup_new();
	s->generator = point_new();
	s->generator->point = pm_mkpt(x, y);
	s->generator->order = pm_mk(pm_ptorder(c->curve, s->generator->point));
	s->generator->cofactor = divii(c->order, s->generator->order);
	c->generators[i] = s;
}
#endif
