/* Elliptic curves over finite fields as abstract finite abelian groups. */
#include "pm_ell.h"
#include <stdlib.h>

struct pm_curve pm_curves[PM_NCURVES];
int pm_ncurves;
enum { FF_CARD = 1, FF_GROUP, FF_GROUPGEN, FF_O };
#define SLOT 16

GEN pm_slot(GEN E, long tag) { return gel(gel(E, SLOT), tag); }
int pm_curve_id(GEN E) {
	MODEL(typ(E) == t_VEC && lg(E) == 17, "an elliptic curve");
	return (int)gel(E, 14)[2];
}
static struct pm_curve *cv(GEN E) { return &pm_curves[pm_curve_id(E)]; }
val_t pm_card(GEN E) { struct pm_curve *c = cv(E); return (val_t)((mag_t)c->n1 * (mag_t)c->n2); }

static GEN coef(struct pm_curve *c, val_t v) {
	if (c->T) return pm_mkff((ulong)v, c->T);
	return mkintmod(pm_mk(v), pm_mk(c->p));
}
static GEN mkE(int id, val_t disc) {
	struct pm_curve *c = &pm_curves[id];
	GEN E = cgetg(17, t_VEC);
	for (long i = 1; i <= 13; i++) gel(E, i) = gen_0;
	if (c->T) {
		gel(E, 1) = coef(c, 1);
		gel(E, 2) = coef(c, c->a);
		gel(E, 4) = coef(c, 0);
	} else {
		gel(E, 1) = coef(c, 0);
		gel(E, 2) = coef(c, 0);
		gel(E, 4) = coef(c, c->a);
	}
	gel(E, 3) = coef(c, 0);
	gel(E, 5) = coef(c, c->b);
	gel(E, 12) = coef(c, disc);
	gel(E, 13) = coef(c, 0);
	gel(E, 14) = mkvecsmall2(3, id);
	gel(E, 15) = gen_0;
	gel(E, SLOT) = zerovec(5);
	return E;
}
static int new_curve(val_t p, ulong T, val_t a, val_t b) {
	MODEL(pm_ncurves < PM_NCURVES, "number of curves");
	struct pm_curve *c = &pm_curves[pm_ncurves];
	c->used = true;
	c->p = p;
	c->T = T;
	c->a = a;
	c->b = b;
	return pm_ncurves++;
}
GEN pm_mkE(val_t p, val_t a, val_t b, val_t n1, val_t n2) {
	int id = new_curve(p, 0, a, b);
	pm_curves[id].n1 = n1;
	pm_curves[id].n2 = n2;
	return mkE(id, 1);
}

/* ---- the object store ------------------------------------------------------ */
GEN obj_insert(GEN E, long tag, GEN O) {
	GEN v = gel(E, SLOT), o = gel(v, tag);
	gel(v, tag) = gclone(O);
	if (isclone(o)) gunclone(o);
	return gel(v, tag);
}
GEN obj_insert_shallow(GEN E, long tag, GEN O) { gel(gel(E, SLOT), tag) = O; return O; }
GEN obj_check(GEN E, long tag) { GEN o = gel(gel(E, SLOT), tag); return isintzero(o) ? NULL : o; }
void obj_free(GEN E) {
	GEN v = gel(E, SLOT);
	for (long i = 1; i < lg(v); i++) {
		GEN o = gel(v, i);
		gel(v, i) = gen_0;
		if (isclone(o)) gunclone(o);
	}
}

/* ---- group ------------------------------------------------------------------ */
GEN pm_mkpt(val_t i, val_t j) {
	GEN z = cgetg(3, t_VECSMALL); /* flat; (0, 0) is the point at infinity */
	z[1] = (long)i;
	z[2] = (long)j;
	return z;
}
GEN ellinf(void) { return pm_mkpt(0, 0); }
static val_t px(GEN P) { return (val_t)P[1]; }
static val_t py(GEN P) { return (val_t)P[2]; }
int ell_is_inf(GEN P) { return P[1] == 0 && P[2] == 0; }
static val_t lcm(val_t a, val_t b) {
	if (b == 1) return a;
	if (a == 1) return b;
	val_t g = pm_gcd(a, b);
	return (val_t)((mag_t)pm_fdiv(a, g) * (mag_t)b);
}
val_t pm_ptorder(GEN E, GEN P) {
	struct pm_curve *c = cv(E);
	MODEL(px(P) < c->n1 && py(P) < c->n2, "point on the curve");
#ifdef PM_ORDMAX /* smallest k > 0 with kP = 0, by repeated addition */
	typedef unsigned PM_SMALLINT s_t;
	MODEL(c->n1 <= PM_ORDMAX, "group exponent within PM_ORDMAX");
	s_t n1 = (s_t)c->n1, n2 = (s_t)c->n2, x = (s_t)px(P), y = (s_t)py(P), a = x, b = y, r = 0;
	for (unsigned k = 1; k <= PM_ORDMAX; k++) {
		if (r == 0 && a == 0 && b == 0) r = (s_t)k;
		a = (s_t)(a + x); if (a >= n1) a = (s_t)(a - n1);
		b = (s_t)(b + y); if (b >= n2) b = (s_t)(b - n2);
	}
	return (val_t)(mag_t)r;
#endif
	val_t oi = pm_fdiv(c->n1, pm_gcd(px(P), c->n1));
	if (c->n2 == 1) return oi;
	return lcm(oi, pm_fdiv(c->n2, pm_gcd(py(P), c->n2)));
}
GEN ellmul(GEN E, GEN P, GEN k) {
	struct pm_curve *c = cv(E);
	val_t n = pm_v(k);
	val_t j = c->n2 == 1 ? (val_t)0 : pm_mulmod(n, py(P), c->n2);
	return pm_mkpt(pm_mulmod(n, px(P), c->n1), j);
}
GEN elladd(GEN E, GEN P, GEN Q) {
	struct pm_curve *c = cv(E);
	return pm_mkpt(pm_mod(px(P) + px(Q), c->n1), pm_mod(py(P) + py(Q), c->n2));
}
/* libpari computes orders from the cached cardinality */
static GEN card(GEN E) {
	GEN o = pm_slot(E, FF_CARD);
	if (isintzero(o)) return obj_insert(E, FF_CARD, pm_mk(pm_card(E)));
	P(pm_live(o), "the cached curve order is a live object");
	P(typ(o) == t_INT && pm_v(o) == pm_card(E), "the cached curve order is the curve order");
	return o;
}
GEN ellff_get_card(GEN E) { return card(E); }
GEN ellcard(GEN E, GEN p) { (void)p; return icopy(card(E)); }
GEN ellorder(GEN E, GEN P, GEN o) {
	(void)o;
	(void)card(E);
	return pm_mk(pm_ptorder(E, P));
}
GEN ellff_get_gens(GEN E) {
	GEN o = pm_slot(E, FF_GROUPGEN);
	struct pm_curve *c = cv(E);
	(void)card(E);
	if (isintzero(o)) {
		GEN g;
		if (c->n1 == 1) g = cgetg(1, t_VEC);
		else if (c->n2 == 1) g = mkvec(pm_mkpt(1, 0));
		else g = mkvec2(pm_mkpt(1, 0), pm_mkpt(pm_between(0, c->n1 - 1), 1));
		o = obj_insert(E, FF_GROUPGEN, g);
	}
	return o;
}
/* ellsea(E, smallfact): the order, or 0 when smallfact forces an early abort
 * because the order was found to have a small factor */
GEN ellsea(GEN E, long smallfact) {
	val_t n = pm_card(E);
	if (smallfact && !pm_isprime_v(n) && nd_bool()) return gen_0;
	return pm_mk(n);
}
/* ---- members ------------------------------------------------------------------ */
GEN ell_get_a1(GEN e) { return gel(e, 1); }
GEN ell_get_a2(GEN e) { return gel(e, 2); }
GEN ell_get_a3(GEN e) { return gel(e, 3); }
GEN ell_get_a4(GEN e) { return gel(e, 4); }
GEN ell_get_a6(GEN e) { return gel(e, 5); }
GEN ell_get_disc(GEN e) { return gel(e, 12); }
GEN ell_get_j(GEN e) { return gel(e, 13); }
