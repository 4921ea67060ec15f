/* hex_check_param: a curve is kept exactly when the text occurs in one of its
 * parameters as printed. */
#include "hs.h"
#include "gen/hex.h"
#include "gen/seed.h"
#include "util/bits.h"
#include <ctype.h>
extern long pm_paristr_live, pm_try_live;
void *try_malloc(size_t);
#ifndef DIG
#define DIG 2 /* hexadecimal digits of the field size */
#endif
#ifndef SL
#define SL 2 /* characters searched for */
#endif
#ifndef NG
#define NG 1
#endif
#ifndef NPT
#define NPT 1
#endif
#ifndef SEEDBITS
#define SEEDBITS 0
#endif
#ifndef STATE
#define STATE OFFSET_POINTS
#endif
static char pat[SL + 1];
static bool found;
static int nib(char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' ? c - 'a' + 10 : c - 'A' + 10; }
/* the text occurs in a number of D digits */
static void occurs(int from, unsigned long v, int D) {
	if (STATE < from) return;
	for (int i = 0; i + SL <= D; i++) {
		bool eq = true;
		for (int j = 0; j < SL; j++) eq = eq && ((v >> (4 * (D - 1 - i - j))) & 15) == (unsigned)nib(pat[j]);
		found = found || eq;
	}
}
static GEN el(val_t p, unsigned long x) {
#ifdef KBIN
	ASSUME(x >> (KDEG - 1) == 1);
	return pm_mkff(x, KBIN);
#endif
	return mkintmod(pm_mk((val_t)(mag_t)x), pm_mk(p));
}
static point_t *pt(val_t p, unsigned long x, unsigned long y) {
	point_t *r = hs_point();
	r->point = mkvec2(el(p, x), el(p, y));
	r->order = gen_1;
	return r;
}
void h_hex(void) {
	val_t p = (val_t)(mag_t)nd_bits(4 * DIG);
	ASSUME(p > 2);
	cfg->field = FIELD_PRIME;
	cfg->hex_digits = DIG;
	cfg->bits = 4 * DIG;
	for (int i = 0; i < SL; i++) {
		pat[i] = (char)nd_bits(7);
		ASSUME((pat[i] >= '0' && pat[i] <= '9') || (pat[i] >= 'a' && pat[i] <= 'f') || (pat[i] >= 'A' && pat[i] <= 'F'));
	}
	pm_strreg(pat, SL);
	if (SL == 1) ASSUME(pat[0] != '0'); /* the prefix 0x */
	char keep[SL + 1];
	memcpy(keep, pat, SL + 1);
	curve_t *c = curve_new();
	unsigned long a = nd_bits(4 * DIG), b = nd_bits(4 * DIG), n = nd_bits(4 * DIG), x[NG + NG * NPT], y[NG + NG * NPT];
	c->field = pm_mk(p);
	c->a = el(p, a);
	c->b = el(p, b);
	c->order = pm_mk((val_t)(mag_t)n);
#ifdef KBIN
	cfg->field = FIELD_BINARY;
	pm_hint_pol = KDEG;
	c->field = pm_mkff(2, KBIN);
#else
	occurs(OFFSET_FIELD, (unsigned long)(mag_t)p, DIG);
#endif
	occurs(OFFSET_A, a, DIG);
	occurs(OFFSET_B, b, DIG);
	occurs(OFFSET_ORDER, n, DIG);
#if SEEDBITS > 0
	c->seed = seed_new();
	unsigned long s = nd_bits(SEEDBITS);
	c->seed->seed = bits_new(SEEDBITS);
	for (size_t i = 0; i < (SEEDBITS + 7) / 8; i++) {
		int sh = SEEDBITS - 8 * ((int)i + 1);
		c->seed->seed->bits[i] = (unsigned char)(sh >= 0 ? s >> sh : s << -sh);
	}
	occurs(OFFSET_SEED, s, (SEEDBITS + 7) / 8 * 2);
#endif
	c->ngens = NG;
	c->generators = subgroups_new(NG);
	int k = 0;
	for (int g = 0; g < NG; g++) {
		c->generators[g] = hs_subgroup();
		x[k] = nd_bits(4 * DIG) ;
		y[k] = nd_bits(4 * DIG) ;
		occurs(OFFSET_GENERATORS, x[k], DIG);
		occurs(OFFSET_GENERATORS, y[k], DIG);
		c->generators[g]->generator = pt(p, x[k], y[k]);
		k++;
		c->generators[g]->npoints = NPT;
		c->generators[g]->points = NPT ? points_new(NPT) : NULL;
		for (int i = 0; i < NPT; i++) {
			x[k] = nd_bits(4 * DIG) ;
			y[k] = nd_bits(4 * DIG) ;
			occurs(OFFSET_POINTS, x[k], DIG);
			occurs(OFFSET_POINTS, y[k], DIG);
			c->generators[g]->points[i] = pt(p, x[k], y[k]);
			k++;
		}
	}
	arg_t arg = {pat, 1, NULL};
	long l1 = pm_paristr_live, l2 = pm_try_live;
	int r = hex_check_param(c, &arg, STATE);
	P(found ? r > 0 : r <= 0, "the curve is kept exactly when the text occurs in it");
	if (!found) P(STATE + r == OFFSET_FIELD, "another curve is generated from the field on");
	for (int i = 0; i <= SL; i++) P(pat[i] == keep[i], "the requested text is left alone");
	P(pm_paristr_live == l1 && pm_try_live == l2, "the texts made are all released, each by its own allocator");
#ifndef KBIN
	P(pm_v(c->field) == p, "the curve is left alone");
#endif
	P(pm_v(c->order) == (val_t)(mag_t)n, "the curve is left alone");
	if (found) REACH("kept"); else REACH("another");
}
