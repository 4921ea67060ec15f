/* The option dispatch: which procedures, arguments, validators and undo steps
 * a configuration selects, and which options are reported as ignored. */
#include "hs.h"
#include "exhaustive/check.h"
#include "exhaustive/ansi.h"
#include "exhaustive/brainpool.h"
#include "exhaustive/brainpool_rfc.h"
#include "exhaustive/nums.h"
#include "exhaustive/family.h"
#include "gen/curve.h"
#include "gen/equation.h"
#include "gen/field.h"
#include "gen/gens.h"
#include "gen/hex.h"
#include "gen/metadata.h"
#include "gen/order.h"
#include "gen/point.h"
#include "gen/seed.h"
#include "cm/anomalous.h"
#include "cm/cm_any.h"
#include "cm/cm_prime.h"
#include "cm/cm.h"
#include "cm/supersingular.h"
#include <limits.h>
#include <stdarg.h>
#include <stdio.h>
#ifdef VCBMC
#undef P
#define P(c, m) __CPROVER_assert((c), "P: " m)
#endif
/* every procedure is a distinct function (none is run here) */
#define ALLGENS(X) X(ansi_gen_seed_argument) X(ansi_gen_seed_random) X(ansi_gen_seed_input) X(ansi_gen_equation) \
	X(brainpool_gen_seed_argument) X(brainpool_gen_seed_random) X(brainpool_gen_seed_input) X(brainpool_gen_field) X(brainpool_gen_equation) X(brainpool_gen_gens) \
	X(brainpool_rfc_gen_seed_argument) X(brainpool_rfc_gen_seed_random) X(brainpool_rfc_gen_seed_input) X(brainpool_rfc_gen_equation) \
	X(nums_gen_field) X(nums_gen_a) X(nums_gen_b) X(nums_gen_order) X(nums_gen_gens) \
	X(family_gen_seed_random) X(family_gen_seed_input) X(family_gen_field) X(family_gen_equation_iter) X(family_gen_equation_cm) X(family_gen_order) \
	X(field_gen_random) X(field_gen_input) X(a_gen_zero) X(a_gen_one) X(a_gen_random) X(a_gen_input) X(a_gen_input_once) X(b_gen_one) X(b_gen_random) X(b_gen_input) X(b_gen_input_once) \
	X(order_gen_input) X(order_gen_any) X(order_gen_prime) X(order_gen_cofactor) X(order_gen_smooth) X(order_gen_koblitz) X(order_gen_sea) \
	X(gens_gen_one) X(gens_gen_cofactor) X(gens_gen_any) X(curve_gen_any) X(curve_gen_any_twist) X(metadata_gen) \
	X(points_gen_random) X(point_gen_random) X(points_gen_prime) X(points_gen_nonprime) X(points_gen_allgroups) X(points_gen_trial) \
	X(cm_gen_curve_prime) X(cm_gen_curve_any) X(cm_gen_order) X(anomalous_gen_field) X(anomalous_gen_equation) X(anomalous_gen_order) X(supersingular_gen_equation) X(supersingular_gen_order) \
	X(curve_check_nonzero) X(hex_check_param) X(brainpool_check_order) X(brainpool_check_gens) X(gens_check_anomalous)
#define G_(f) int f(curve_t *c, arg_t *a, offset_e s) { (void)c; (void)a; (void)s; return INT_MIN + __LINE__; }
ALLGENS(G_)
#define UN(f) int f(curve_t *c, pari_sp a, pari_sp b) { (void)c; (void)a; (void)b; return -1; }
UN(seed_unroll) UN(curve_unroll) UN(gens_unroll) UN(points_unroll)
void family_init(void) {}
void family_quit(void) {}
void field_quit(void) {}
void equation_quit(void) {}
void nums_quit(void) {}
void anomalous_init(void) {}
void anomalous_quit(void) {}

/* ---- the warnings ---- */
enum { W_FIELD, W_METHOD, W_COUNT, W_RANDOM, W_PRIME, W_ORDER, W_KOBLITZ, W_SMOOTH, W_COFACTOR, W_INVALID, W_SEED, W_UNIQUE, W_HEX, W_POINTS, W_META, NW };
static bool warned[NW];
static bool has(const char *h, const char *s) {
	for (; *h; h++) {
		unsigned i = 0;
		while (s[i] && h[i] == s[i]) i++;
		if (!s[i]) return true;
	}
	return false;
}
static const char *const opt_s[NW] = {"--fp", "argument method", "--count", "--random", "--prime", "--order", "--koblitz", "--smooth", "--cofactor", "--invalid", "--ansi", "--unique", "--hex-check", "--points", "--metadata"};
static void seen(const char *s) {
#define SEEN1(i) if (has(s, opt_s[i])) warned[i] = true;
	SEEN1(0) SEEN1(1) SEEN1(2) SEEN1(3) SEEN1(4) SEEN1(5) SEEN1(6) SEEN1(7) SEEN1(8) SEEN1(9) SEEN1(10) SEEN1(11) SEEN1(12) SEEN1(13) SEEN1(14)
}
int pm_fprintf(FILE *f, const char *fmt, ...) {
	va_list ap;
	(void)f;
	seen(fmt);
	va_start(ap, fmt);
	for (const char *p = fmt; *p; p++)
		if (*p == '%' && p[1] == 's') seen(va_arg(ap, const char *));
	va_end(ap);
	return 1;
}
int pm_fputs(const char *s, FILE *f) { (void)f; seen(s); return 1; }

/* ---- an arbitrary configuration the command line accepts ---- */
#ifndef METHOD
#define METHOD METHOD_DEFAULT
#endif
#ifndef ALGO
#define ALGO SEED_NONE
#endif
static char hexs[] = "beef", seeds[] = "5EED", orders[] = ORDER_S, primes_[] = "3-5";
#define OPT(name) (cfg_set->name = nd_bool())
static void configure(void) {
	cfg_set->field = true;
	cfg->field = nd_bool() ? FIELD_PRIME : FIELD_BINARY;
	cfg->method = METHOD;
	cfg_set->method = METHOD != METHOD_DEFAULT;
	cfg->seed_algo = ALGO;
	cfg_set->seed_algo = ALGO != SEED_NONE;
	if (ALGO == SEED_ANSI || ALGO == SEED_BRAINPOOL || ALGO == SEED_BRAINPOOL_RFC) if (OPT(seed)) cfg->seed = seeds;
	if (ALGO > SEED_ANSI || METHOD == METHOD_CM || METHOD == METHOD_ANOMALOUS || METHOD == METHOD_FAMILY || METHOD == METHOD_SUPERSINGULAR) ASSUME(cfg->field == FIELD_PRIME);
	cfg->count = 1;
	if (OPT(count)) cfg->count = (long)nd_range(1, 5);
	if (OPT(random)) cfg->random = (random_e)nd_bits(4);
	ASSUME(!cfg_set->random || cfg->random);
	if (ALGO == SEED_NUMS) ASSUME(!cfg->random);
	if (METHOD == METHOD_ANOMALOUS) ASSUME(cfg->random);
	if (OPT(prime)) cfg->prime = true;
	if (OPT(smooth)) { cfg->smooth = true; cfg->smooth_value = (long)nd_bits(8); }
	if (OPT(cofactor)) { cfg->cofactor = true; cfg->cofactor_value = (long)nd_bits(8); }
	ASSUME(cfg->prime + cfg->smooth + cfg->cofactor <= 1);
	if (OPT(koblitz)) {
		cfg->koblitz = true;
		if (OPT(koblitz_value)) cfg->koblitz_value = (long)nd_bits(1);
	}
	if (OPT(unique)) cfg->unique = true;
	if (OPT(hex_check)) cfg->hex_check = hexs;
	if (OPT(metadata)) cfg->metadata = true;
	if (OPT(points)) { cfg->points.type = (enum points_e)nd_range(0, 4); cfg->points.amount = nd_bits(3); }
	if (METHOD == METHOD_CM) { cfg_set->cm_order = true; cfg->cm_order = orders; }
	if (METHOD == METHOD_INVALID && OPT(invalid_primes)) cfg->invalid_primes = primes_;
	if (METHOD == METHOD_FAMILY) cfg->family = (family_e)nd_range(0, FAMILY_KSS40);
	cfg_used->method = true; /* main has looked at it */
	cfg->bits = 32;
	cfg->threads = 1;
}
/* an option is reported exactly when it was given and plays no part */
#define USED(w, name, used, m)                                                \
	P(!warned[w] || cfg_set->name, m " is not reported when it was not given"); \
	if (cfg_set->name) P(warned[w] == !(used), m " is reported as ignored exactly when it is ignored");
static void common_stages(const exhaustive_t *s) {
	gen_f pf = NULL;
	switch (cfg->points.type) {
		case POINTS_RANDOM: pf = cfg->points.amount ? points_gen_random : point_gen_random; break;
		case POINTS_PRIME: pf = points_gen_prime; break;
		case POINTS_NONPRIME: pf = points_gen_nonprime; break;
		case POINTS_ALL: pf = points_gen_allgroups; break;
		case POINTS_NONE: pf = gen_skip; break;
	}
	P(s->generators[OFFSET_POINTS] == pf, "points as asked");
	if (cfg->points.type == POINTS_RANDOM) {
		arg_t *a = s->gen_argss[OFFSET_POINTS];
		P(a && a->nargs == 1 && *(const size_t *)a->args == cfg->points.amount, "as many points as asked");
	}
	P(s->generators[OFFSET_METADATA] == (cfg->metadata ? metadata_gen : gen_skip), "metadata when asked for");
	check_t *v = s->validators[OFFSET_POINTS];
	if (cfg->hex_check) {
		P(v && v->nchecks == 1 && v->checks[0] == hex_check_param, "the hex check is run when asked for");
		arg_t *a = s->check_argss[OFFSET_POINTS];
		P(a && a->nargs == 1 && a->args == hexs, "for the string given");
	} else P(!v, "no other check of the points");
	v = s->validators[OFFSET_CURVE];
	P(v && v->nchecks == 1 && v->checks[0] == curve_check_nonzero, "singular curves are refused");
	for (int i = 0; i < OFFSET_END; i++) {
		if (i == OFFSET_SEED || i == OFFSET_FIELD || i == OFFSET_A || i == OFFSET_B || i == OFFSET_METADATA) P(!s->validators[i], "no other validators");
		P(s->generators[i] != NULL, "every stage has a procedure");
	}
	P(s->unrolls[OFFSET_CURVE] == curve_unroll && s->unrolls[OFFSET_GENERATORS] == gens_unroll && s->unrolls[OFFSET_POINTS] == points_unroll, "undo steps");
	unroll_f su = s->unrolls[OFFSET_SEED];
	P(cfg->seed_algo || cfg->method == METHOD_FAMILY ? su == seed_unroll : su == unroll_skip || !su, "the seed is undone where there is one");
#define SKIPS(o) P(s->unrolls[o] == unroll_skip || !s->unrolls[o], "values on the stack need no undo step");
	SKIPS(OFFSET_FIELD) SKIPS(OFFSET_A) SKIPS(OFFSET_B) SKIPS(OFFSET_ORDER)
}
static bool ran;
static bool two(check_t *v, check_f a, check_f b) {
	return v && v->nchecks == 2 && ((v->checks[0] == a && v->checks[1] == b) || (v->checks[0] == b && v->checks[1] == a));
}

#ifdef EXHAUSTIVE
int exhaustive_generate(exhaustive_t *s) {
	gen_f *g = s->generators;
	P(!ran, "one run");
	ran = true;
	common_stages(s);
	bool normal = ALGO == SEED_NONE && METHOD != METHOD_FAMILY, procedure = ALGO == SEED_BRAINPOOL || ALGO == SEED_BRAINPOOL_RFC || ALGO == SEED_NUMS;
	/* seed, field and coefficients */
	gen_f sd = gen_skip, fi = cfg->random & RANDOM_FIELD ? field_gen_random : field_gen_input, a = gen_skip, b = NULL;
#define SEEDS(n) (cfg->seed ? n##_gen_seed_argument : cfg->random & RANDOM_SEED ? n##_gen_seed_random : n##_gen_seed_input)
	if (ALGO == SEED_ANSI) { sd = SEEDS(ansi); b = ansi_gen_equation; }
	else if (ALGO == SEED_BRAINPOOL) { sd = SEEDS(brainpool); fi = brainpool_gen_field; b = brainpool_gen_equation; }
	else if (ALGO == SEED_BRAINPOOL_RFC) { sd = SEEDS(brainpool_rfc); fi = brainpool_gen_field; b = brainpool_rfc_gen_equation; }
	else if (ALGO == SEED_NUMS) { fi = nums_gen_field; a = nums_gen_a; b = nums_gen_b; }
	else if (METHOD == METHOD_FAMILY) {
		sd = cfg->random & RANDOM_SEED ? family_gen_seed_random : cfg->random ? g[OFFSET_SEED] : family_gen_seed_input;
		P(g[OFFSET_SEED] == family_gen_seed_random || g[OFFSET_SEED] == family_gen_seed_input, "a family seed");
		fi = family_gen_field;
		b = cfg->family == FAMILY_KSS16 || cfg->family == FAMILY_KSS40 ? family_gen_equation_cm : family_gen_equation_iter;
	} else if (cfg->koblitz) { a = cfg->koblitz_value ? a_gen_one : a_gen_zero; b = b_gen_one; }
	else { a = cfg->random & RANDOM_A ? a_gen_random : a_gen_input; b = cfg->random & RANDOM_B ? b_gen_random : b_gen_input; }
	P(g[OFFSET_SEED] == sd, "the seed comes from where the options say");
	P(g[OFFSET_FIELD] == fi, "so does the field");
	P(g[OFFSET_A] == a, "so does a");
	P(g[OFFSET_B] == b, "so does b");
	P(g[OFFSET_CURVE] == (METHOD == METHOD_TWIST ? curve_gen_any_twist : curve_gen_any), "the curve or its twist");
	/* order and generators */
	gen_f o = order_gen_any, ge = gens_gen_any;
	if (procedure) { o = ALGO == SEED_NUMS ? nums_gen_order : order_gen_prime; ge = ALGO == SEED_NUMS ? nums_gen_gens : brainpool_gen_gens; }
	else if (METHOD == METHOD_FAMILY) o = family_gen_order;
	else {
		o = cfg->prime ? order_gen_prime : cfg->cofactor ? order_gen_cofactor : cfg->smooth ? order_gen_smooth
			: cfg->koblitz && ALGO == SEED_NONE ? order_gen_koblitz : order_gen_any;
		ge = cfg->unique ? gens_gen_one : cfg->cofactor ? gens_gen_cofactor : gens_gen_any;
		if (cfg->cofactor) {
			arg_t *x = s->gen_argss[OFFSET_ORDER], *y = s->gen_argss[OFFSET_GENERATORS];
			P(x && x->nargs == 1 && *(const long *)x->args == cfg->cofactor_value, "the cofactor given is the order stage's");
			P(y && y->nargs == 1 && *(const long *)y->args == cfg->cofactor_value, "and the generator stage's");
		}
		if (cfg->smooth) {
			arg_t *x = s->gen_argss[OFFSET_ORDER];
			P(x && x->nargs == 1 && *(const long *)x->args == cfg->smooth_value, "the bound given is the order stage's");
		}
	}
	P(g[OFFSET_ORDER] == o, "the order is of the kind asked for");
	P(g[OFFSET_GENERATORS] == ge, "the generators are of the kind asked for");
	check_t *v = s->validators[OFFSET_ORDER];
	if (ALGO == SEED_BRAINPOOL || ALGO == SEED_BRAINPOOL_RFC) P(v && v->nchecks == 1 && v->checks[0] == brainpool_check_order, "the Brainpool order condition is checked");
	else P(!v, "no other check of the order");
	v = s->validators[OFFSET_GENERATORS];
	if (procedure) P(two(v, gens_check_anomalous, brainpool_check_gens), "the generator conditions are checked");
	else P(!v, "no other check of the generators");
	/* the report */
	bool fam = METHOD == METHOD_FAMILY;
	USED(W_FIELD, field, true, "the field")
	USED(W_METHOD, method, true, "the method")
	USED(W_COUNT, count, true, "the count")
	USED(W_RANDOM, random, !(cfg->seed && procedure), "--random")
	if (!procedure && !fam) { USED(W_PRIME, prime, true, "--prime") USED(W_UNIQUE, unique, true, "--unique") }
	if (fam) { USED(W_UNIQUE, unique, false, "--unique") }
	USED(W_SMOOTH, smooth, !procedure && !fam, "--smooth")
	USED(W_COFACTOR, cofactor, !procedure && !fam, "--cofactor")
	USED(W_KOBLITZ, koblitz, normal, "--koblitz")
	USED(W_SEED, seed, true, "the seed")
	USED(W_HEX, hex_check, true, "--hex-check")
	USED(W_POINTS, points, true, "--points")
	USED(W_META, metadata, true, "--metadata")
	REACH("dispatched");
	return 17;
}
void h_opts(void) {
	configure();
	long live = pm_try_live;
	int r = exhaustive_do();
	P(ran && r == 17, "the run's status is returned");
	P(pm_try_live == live, "what the set-up allocated is freed");
}
#else
/* ---- complex multiplication, anomalous, supersingular ---- */
int exhaustive_generate(exhaustive_t *s) {
	gen_f *g = s->generators;
	P(!ran, "one run");
	ran = true;
	common_stages(s);
	gen_f fi = gen_skip, b = gen_skip, c = curve_gen_any, o;
	if (METHOD == METHOD_CM) {
		c = ORDER_PRIME ? cm_gen_curve_prime : cm_gen_curve_any;
		o = cm_gen_order;
		arg_t *x = s->gen_argss[OFFSET_CURVE], *y = s->gen_argss[OFFSET_ORDER];
		P(x && x->nargs == 1 && y && y->nargs == 1, "the order is given to the curve and order stages");
		const char *e = ORDER_ALL, *p = x->args, *q = y->args;
		bool ok = true;
		for (unsigned i = 0; i < sizeof(ORDER_ALL); i++) ok = ok && p[i] == e[i] && q[i] == e[i];
		P(ok, "the order given is the product of the factors listed");
	} else if (METHOD == METHOD_ANOMALOUS) {
		fi = anomalous_gen_field; b = anomalous_gen_equation; o = anomalous_gen_order;
		arg_t *x = s->gen_argss[OFFSET_FIELD], *y = s->gen_argss[OFFSET_B];
		P(x && x->nargs == 1 && y && y->nargs == 1 && *(const size_t *)x->args == *(const size_t *)y->args, "field and equation use the same discriminant");
	} else {
		fi = cfg->random & RANDOM_FIELD ? field_gen_random : field_gen_input;
		b = supersingular_gen_equation; o = supersingular_gen_order;
	}
	P(g[OFFSET_SEED] == gen_skip && g[OFFSET_A] == gen_skip, "no seed; a comes with the equation");
	P(g[OFFSET_FIELD] == fi, "the field of the method");
	P(g[OFFSET_B] == b, "the equation of the method");
	P(g[OFFSET_CURVE] == c, "the curve of the method");
	P(g[OFFSET_ORDER] == o, "the order of the method");
	P(g[OFFSET_GENERATORS] == (cfg->unique ? gens_gen_one : gens_gen_any), "the generators of the kind asked for");
	P(!s->validators[OFFSET_ORDER] && !s->validators[OFFSET_GENERATORS], "no other validators");
	USED(W_FIELD, field, true, "the field")
	USED(W_METHOD, method, true, "the method")
	USED(W_COUNT, count, true, "the count")
	USED(W_RANDOM, random, METHOD != METHOD_CM, "--random")
	USED(W_PRIME, prime, false, "--prime")
	USED(W_ORDER, cm_order, true, "--order")
	USED(W_SMOOTH, smooth, false, "--smooth")
	USED(W_COFACTOR, cofactor, false, "--cofactor")
	USED(W_KOBLITZ, koblitz, false, "--koblitz")
	USED(W_UNIQUE, unique, true, "--unique")
	USED(W_HEX, hex_check, true, "--hex-check")
	USED(W_POINTS, points, true, "--points")
	USED(W_META, metadata, true, "--metadata")
	REACH("dispatched");
	return 17;
}
void h_cm(void) {
	configure();
	long live = pm_try_live;
	int r = cm_do();
	P(ran && r == 17, "the run's status is returned");
	P(pm_try_live == live, "what the set-up allocated is freed");
}
/* ---- invalid curves: the curve to invalidate and the report ---- */
int invalid_do(void);
curve_t *curve_new(void) { static curve_t c; return &c; }
void curve_free(curve_t **c) { *c = NULL; }
static const exhaustive_t *inv_setup;
int exhaustive_gen(curve_t *c, const exhaustive_t *s, offset_e from, offset_e to) {
	gen_f *g = s->generators;
	P(!ran && from <= OFFSET_FIELD && to >= OFFSET_POINTS, "the curve to invalidate is generated first");
	ran = true;
	P(g[OFFSET_FIELD] == (cfg->random & RANDOM_FIELD ? field_gen_random : field_gen_input), "the field comes from where the options say");
	P(g[OFFSET_A] == (cfg->random & RANDOM_A ? a_gen_random : a_gen_input), "so does a");
	P(g[OFFSET_B] == (cfg->random & RANDOM_B ? b_gen_random : b_gen_input), "so does b");
	P(g[OFFSET_CURVE] == curve_gen_any && g[OFFSET_ORDER] == order_gen_any && g[OFFSET_GENERATORS] == gens_gen_any, "curve, order and generators");
	check_t *v = s->validators[OFFSET_CURVE];
	P(v && v->nchecks == 1 && v->checks[0] == curve_check_nonzero, "singular curves are refused");
	USED(W_FIELD, field, true, "the field")
	USED(W_METHOD, method, true, "the method")
	USED(W_COUNT, count, false, "the count")
	USED(W_RANDOM, random, true, "--random")
	USED(W_PRIME, prime, false, "--prime")
	USED(W_INVALID, invalid_primes, true, "--invalid")
	USED(W_SMOOTH, smooth, false, "--smooth")
	USED(W_COFACTOR, cofactor, false, "--cofactor")
	USED(W_KOBLITZ, koblitz, false, "--koblitz")
	USED(W_UNIQUE, unique, true, "--unique")
	USED(W_HEX, hex_check, false, "--hex-check")
	USED(W_POINTS, points, false, "--points")
	USED(W_META, metadata, false, "--metadata")
	REACH("dispatched");
	return 0;
}
void h_inv(void) {
	configure();
	pm_allow_exit = 1;
	invalid_do();
	P(false, "without a curve to invalidate nothing goes on");
}
#endif
