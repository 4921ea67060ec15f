/* Field parameters and elements; fields read from the user. */
#include "hs.h"
#include "gen/field.h"
#include "gen/equation.h"
#include "io/input.h"
#include "io/output.h"
#include "math/poly.h"
#ifndef MDEG
#define MDEG 3
#endif
#ifndef FMASK
#define FMASK 11
#endif
#ifndef ELEN
#define ELEN MDEG /* bits of the element */
#endif
#ifndef NLIM
#define NLIM 500
#endif
#ifndef PLIM
#define PLIM 997
#endif
#ifndef BIN
#define BIN 0
#endif
#ifndef TERMS
#define TERMS 3
#endif
#ifndef WHICH
#define WHICH 0
#endif
#ifndef OUTCOME
#define OUTCOME 0
#endif
FILE *err, *out, *in;
static config_t the_cfg;
static curve_t *crv;
static void setup(void) {
	pm_watch_init();
	cfg = &the_cfg;
#ifndef VCBMC
	err = stderr;
#endif
	crv = curve_new();
}
/* ---- elements -------------------------------------------------------------------- */
static val_t symp(void) {
	val_t p = (val_t)nd_range(2, PLIM);
	ASSUME(pm_isprime_v(p));
	return p;
}
/* an integer becomes the element it denotes, and back */
void h_elem(void) {
	setup();
#if BIN
	GEN f = pm_mkff(2, FMASK);
	ulong v = nd_bits(ELEN);
	if (ELEN) ASSUME(v >> (ELEN ? ELEN - 1 : 0));
	pm_hint_pol = ELEN;
	GEN n = pm_mk(pm_ul(v)), e = field_ielement(f, n);
	P(typ(e) == t_FFELT && pm_ffmod(e) == FMASK && pm_live(e), "an element of the field");
	P(pm_ffpoly(e) == v, "the bits of the number are the coefficients of the element");
	GEN back = field_elementi(e);
	P(pm_live(back) && typ(back) == t_INT && pm_v(back) == (val_t)v, "the element turns back into the number");
	P(pm_v(n) == (val_t)v && pm_ffpoly(e) == v, "conversions leave their argument alone");
#else
	val_t p = symp(), v = (val_t)nd_range(0, 2 * NLIM) - NLIM;
	GEN f = pm_mk(p), n = pm_mk(v), e = field_ielement(f, n);
	P(typ(e) == t_INTMOD && pm_v(gel(e, 1)) == p, "an element of the field");
	P(pm_v(gel(e, 2)) == pm_mod(v, p), "the residue of the number");
	GEN back = field_elementi(e);
	P(pm_live(back) && typ(back) == t_INT && pm_v(back) == pm_mod(v, p), "the element turns back into the least number denoting it");
	P(pm_v(n) == v && pm_v(f) == p, "conversions leave their argument alone");
#endif
	REACH("element");
}
void h_elem_int(void) { /* plain numbers stand for themselves */
	setup();
	val_t v = (val_t)nd_range(0, 2000) - 1000;
	GEN r = field_elementi(pm_mk(v));
	P(typ(r) == t_INT && pm_v(r) == v, "a number is its own representation");
	REACH("number");
}
/* ---- parameters ------------------------------------------------------------------- */
#ifdef E1LO
void h_params(void) {
	setup();
	ulong e1 = nd_range(E1LO, MDEG - 1), e2 = 0, e3 = 0;
	if (TERMS == 5) {
		e2 = nd_range(2, MDEG - 2);
		e3 = nd_range(1, MDEG - 3);
		ASSUME(e1 > e2 && e2 > e3);
	}
	GEN cs = cgetg(MDEG + 3 + 1, t_POL), f;
	/* the modulus as libpari gives it: x^m + x^e1 (+ x^e2 + x^e3) + 1 */
	ulong mask = (1UL << MDEG) | (1UL << e1) | 1;
	if (TERMS == 5) mask |= (1UL << e2) | (1UL << e3);
	f = pm_mkff(2, mask);
	(void)cs;
	GEN v = field_params(f);
	P(pm_live(v) && typ(v) == t_VEC && glength(v) == 4, "four exponents");
	P(pm_v(gel(v, 1)) == MDEG, "the degree comes first");
	P(pm_v(gel(v, 2)) == (val_t)e1, "then the exponents, descending");
	P(pm_v(gel(v, 3)) == (val_t)e2 && pm_v(gel(v, 4)) == (val_t)e3, "then the lower exponents, or zeros");
	REACH("parameters");
}
GEN member_mod(GEN x) {
	ulong m = pm_ffmod(x);
	GEN z = cgetg(MDEG + 3, t_POL);
	z[1] = (long)evalsigne(1);
	for (ulong i = 0; i <= MDEG; i++) gel(z, i + 2) = ((m >> i) & 1) ? gen_1 : gen_0;
	return z;
}
#endif
void h_params_p(void) {
	setup();
	val_t p = symp();
	GEN v = field_params(pm_mk(p));
	P(typ(v) == t_VEC && glength(v) == 1 && pm_v(gel(v, 1)) == p, "the prime itself");
	REACH("prime");
}
/* ---- random fields ------------------------------------------------------------------ */
static ulong asked;
static unsigned nasked;
GEN random_prime(unsigned long bits) {
	asked = bits;
	nasked++;
	return pm_mk(symp());
}
static GEN found;
bool poly_exists(unsigned long m) { return m >= 2 && m <= 10000; }
GEN poly_find_gen(unsigned long m) {
	asked = m;
	nasked++;
	return found = pm_mkff(2, FMASK);
}
void pm_exit(int s);
static bool exited;
void pm_exit(int s) {
	P(s != 0, "a failure is an error");
	exited = true;
	P(cfg->field == FIELD_BINARY && !poly_exists(cfg->bits), "given up only on sizes without a polynomial");
	REACH("no field of that size");
	ASSUME(false);
}
void h_random(void) {
	setup();
	cfg->bits = nd_range(1, 20000);
	cfg->field = BIN ? FIELD_BINARY : FIELD_PRIME;
	int r = field_gen_random(crv, NULL, OFFSET_FIELD);
	P(r == 1, "a field");
	P(nasked == 1 && asked == cfg->bits, "of the size asked for");
	P(typ(crv->field) == (BIN ? t_FFELT : t_INT) && pm_live(crv->field), "of the kind asked for");
	REACH("random");
}
/* ---- fields from input ---------------------------------------------------------------- */
static val_t given[8];
static unsigned ngiven;
static val_t next(void) {
	val_t v = (val_t)nd_range(0, 1000) - 50;
	if (ngiven < 8) given[ngiven] = v;
	ngiven++;
	return v;
}
GEN input_prime(const char *prompt, unsigned long bits) {
	(void)prompt;
	P(bits == cfg->bits, "a number of the size of the field");
	val_t v = next();
	ASSUME(v == -1 || v == -2 || pm_isprime_v(v));
	return pm_mk(v);
}
static val_t hints[5];
GEN input_int(const char *prompt, unsigned long bits) {
	(void)prompt;
	P(bits == cfg->bits, "a number of the size of the field");
	val_t v = next();
#if BIN
	if (OUTCOME == 0) { v = (val_t)nd_bits(ELEN); if (ELEN) ASSUME(v >> (ELEN ? ELEN - 1 : 0)); given[0] = v; pm_hint_pol = ELEN; }
	else v = -OUTCOME;
	given[0] = v;
#endif
	return pm_mk(v);
}
#ifdef SHORTS
/* exponents: one fixed answer per job where the shape depends on it */
GEN input_short(const char *prompt) {
	(void)prompt;
	val_t v;
	if (ngiven == 0 && OUTCOME != 9) v = MDEG;
	else v = (val_t)nd_range(0, MDEG + 12) - 6;
	if (ngiven == OUTCOME && OUTCOME < 9) v = WHICH; /* the answer that spoils it */
	else if (OUTCOME < 9 && ngiven) ASSUME(v >= 0 && v <= MDEG);
	if (ngiven == 0 && OUTCOME == 9) ASSUME(v != MDEG && v != -2);
	if (ngiven < 8) given[ngiven] = v;
	ngiven++;
	return pm_mk(v);
}
/* over F_2: the coefficients are 0 and 1 already */
GEN gmul(GEN x, GEN y) {
	P(typ(x) == t_POL && typ(y) == t_INTMOD && pm_v(gel(y, 1)) == 2 && pm_v(gel(y, 2)) == 1, "a polynomial over F_2");
	return x;
}
GEN gtopolyrev(GEN v, long var) {
	(void)var;
	P(typ(v) == t_VEC && lg(v) == MDEG + 2, "one coefficient for each power up to the degree");
	GEN z = cgetg(MDEG + 3, t_POL);
	z[1] = (long)evalsigne(1);
	for (long i = 1; i <= MDEG + 1; i++) gel(z, i + 1) = gel(v, i);
	return z;
}
int isintzero(GEN x) { return pm_v(x) == 0; }
static ulong mask_from(GEN x) {
	ulong m = 0;
	for (long i = 0; i <= MDEG; i++) if (pm_v(gel(x, i + 2)) & 1) m |= 1UL << i;
	return m;
}
GEN ffgen(GEN x, long var) { (void)var; return pm_mkff(2, mask_from(x)); }
static ulong irr_asked;
static bool irr;
static unsigned nirr;
long polisirreducible(GEN x) {
	irr_asked = mask_from(x);
	irr = nd_bool();
	nirr++;
	return irr;
}
void h_in_binary(void) {
	setup();
	cfg->bits = MDEG;
	cfg->field = FIELD_BINARY;
	pm_hint_pol = MDEG + 1;
	int r = field_gen_input(crv, NULL, OFFSET_FIELD);
	bool eof = false, bad = false;
	for (unsigned i = 0; i < 4; i++)
		if (i < ngiven && !eof && !bad) {
			if (given[i] == -2) eof = true;
			else if (i == 0 ? given[i] != MDEG : given[i] < 0 || given[i] > MDEG) bad = true;
		}
	if (eof) {
		P(r == INT_MIN, "the end of the input stops the run");
		REACH("end");
	} else if (bad) {
		P(r == 0, "other degrees and bad exponents are refused");
		REACH("bad");
	} else {
		P(ngiven == 4, "a degree and three exponents");
		ulong mask = (1UL << MDEG) | 1;
		for (unsigned i = 1; i < 4; i++) mask |= 1UL << given[i];
		if (given[1] == 0 && given[2] == 0 && given[3] == 0) {
			P(r == 0, "two terms are refused");
			REACH("two terms");
			return;
		}
		P(nirr >= 1 && irr_asked == mask, "the polynomial given is tested");
		if (!irr) {
			P(r == 0, "a reducible polynomial is refused");
			REACH("reducible");
		} else {
			P(r == 1 && crv->field && pm_live(crv->field) && typ(crv->field) == t_FFELT && pm_ffmod(crv->field) == mask, "the field of the polynomial given");
			REACH("field");
		}
	}
}
#endif
void h_in_prime(void) {
	setup();
	cfg->bits = nd_range(2, 10);
	cfg->field = FIELD_PRIME;
	int r = field_gen_input(crv, NULL, OFFSET_FIELD);
	P(ngiven == 1, "one prime");
	if (given[0] == -1) { P(r == 0, "refused input is asked for again"); REACH("refused"); }
	else if (given[0] == -2) { P(r == INT_MIN, "the end of the input stops the run"); REACH("end"); }
	else { P(r == 1 && pm_live(crv->field) && typ(crv->field) == t_INT && pm_v(crv->field) == given[0], "the prime given"); REACH("prime"); }
}
/* read once, then reused */
void h_in_once(void) {
	setup();
	cfg->bits = nd_range(2, 10);
	cfg->field = FIELD_PRIME;
	int r = field_gen_once(crv, NULL, OFFSET_FIELD);
	if (given[0] == -1) P(r == 0, "refused input is asked for again");
	else if (given[0] == -2) { P(r == INT_MIN, "the end of the input stops the run"); REACH("end"); }
	else {
		P(r == 1 && pm_v(crv->field) == given[0], "the prime given");
		crv->field = NULL;
		r = field_gen_once(crv, NULL, OFFSET_FIELD);
		P(r == 1 && ngiven == 1 && pm_live(crv->field) && pm_v(crv->field) == given[0], "the same field, without asking again");
		REACH("again");
		field_quit();
	}
}
/* coefficients */
void h_in_coef(void) {
	setup();
	cfg->bits = BIN ? MDEG : 10;
	cfg->field = BIN ? FIELD_BINARY : FIELD_PRIME;
	val_t p = BIN ? 2 : symp();
	crv->field = BIN ? pm_mkff(2, FMASK) : pm_mk(p);
	bool isa = nd_bool(), once = false;
	unsigned n = 0;
	int r;
#ifdef ONCE
	once = true;
	r = isa ? a_gen_once(crv, NULL, OFFSET_A) : b_gen_once(crv, NULL, OFFSET_B);
#else
	r = isa ? a_gen_input(crv, NULL, OFFSET_A) : b_gen_input(crv, NULL, OFFSET_B);
#endif
	GEN e = isa ? crv->a : crv->b;
	if (given[0] == -1) { P(r == 0 && !e, "refused input is asked for again"); REACH("refused"); }
	else if (given[0] == -2) { P(r == INT_MIN && !e, "the end of the input stops the run"); REACH("end"); }
	else for (n = 0; n < 1 + (once ? 1 : 0); n++) {
		if (n) {
			crv->a = crv->b = NULL;
			r = isa ? a_gen_once(crv, NULL, OFFSET_A) : b_gen_once(crv, NULL, OFFSET_B);
			e = isa ? crv->a : crv->b;
			P(ngiven == 1, "not asked for again");
		}
		P(r == 1 && e && pm_live(e), "a coefficient");
		P((isa ? crv->b : crv->a) == NULL, "the other coefficient is untouched");
#if BIN
		P(typ(e) == t_FFELT && pm_ffmod(e) == FMASK && pm_ffpoly(e) == (ulong)given[0], "the element given");
#else
		P(typ(e) == t_INTMOD && pm_v(gel(e, 1)) == p && pm_v(gel(e, 2)) == pm_mod(given[0], p), "the element given");
#endif
		REACH("coefficient");
	}
}
