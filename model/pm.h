/*
 * Executable model of the part of libpari that ecgen uses, plus the harness
 * vocabulary (nondet input tape, assertions).  The same text is compiled
 *   - by goto-cc, where nd_*() are solver variables, and
 *   - by clang (with ASan/UBSan), where nd_*() read the counterexample tape,
 * so that every counterexample is replayed by executing the real ecgen code.
 */
#ifndef PM_H
#define PM_H
#include <pari/pari.h>
#ifdef VCBMC
#include "pm_types.h"
#endif
#include <stdbool.h>
#include <stddef.h>
#include <string.h>

#ifndef PMW
#define PMW 1 /* limbs of a model t_INT: |x| < 2^(64*PMW) */
#endif
#define PMLG (PMW + 2)
/* Every object of the solver build has this many words, so that copying is a
 * constant-size flat copy whatever object a pointer may refer to. */
#ifndef PM_VCAP
#define PM_VCAP 20
#endif
#if defined(VCBMC) && !defined(PM_DEEPCOPY)
#define PM_FLAT 1
#endif
#ifndef PM_VBITS
#define PM_VBITS (64 * PMW) /* magnitudes are encoded in this many bits */
#endif
#ifndef PM_MAXBITS
#define PM_MAXBITS PM_VBITS /* longest integer whose bit length is taken */
#endif

/* whole bytes, so that arrays of them are representable */
#define PM_VALW ((PM_VBITS + 15) / 8 * 8)
#define PM_DBLW ((2 * PM_VBITS + 23) / 8 * 8)
#ifdef VCBMC
typedef unsigned __CPROVER_bitvector[(PM_VBITS + 7) / 8 * 8] mag_t;
typedef signed __CPROVER_bitvector[PM_VALW] val_t;
typedef unsigned __CPROVER_bitvector[PM_DBLW] dbl_t;
#else
typedef unsigned _BitInt((PM_VBITS + 7) / 8 * 8) mag_t;
typedef signed _BitInt(PM_VALW) val_t;
typedef unsigned _BitInt(PM_DBLW) dbl_t;
#endif

/* ---- harness vocabulary ------------------------------------------------ */
#ifdef VCBMC


/* a failed obligation is reported; what follows is judged on the paths where it
 * holds (the native replay stops at the first failure anyway) */
#define P(c, m)                              \
	do {                                     \
		bool pm_c_ = (c);                    \
		__CPROVER_assert(pm_c_, "P: " m);    \
		__CPROVER_assume(pm_c_);             \
	} while (0)
#define MODEL(c, m)                          \
	do {                                     \
		__CPROVER_assert((c), "MODEL: " m);  \
		__CPROVER_assume(c);                 \
	} while (0)
#define ASSUME(c) __CPROVER_assume(c)
/* A shape the harness expects, used to keep the encoding small.  Where the code
 * under test departs from it, the native replay (which uses no hints) decides
 * whether a property is really broken; otherwise the job is solved again
 * without hints. */
#define HINT(c, m)                           \
	do {                                     \
		bool pm_h_ = (c);                    \
		__CPROVER_assert(pm_h_, "HINT: " m); \
		__CPROVER_assume(pm_h_);             \
	} while (0)
#ifdef PM_NOHINTS
#define PM_HINT(h) (-1L)
#else
#define PM_HINT(h) (h)
#endif
#ifdef WITNESS
#define REACH(m) __CPROVER_assert(0, "REACH: " m)
#else
#define REACH(m) ((void)0)
#endif
#else
void pm_native_fail(const char *m);
void pm_native_model(const char *m);
void pm_native_assume(const char *m);
#define P(c, m)                             \
	do {                                    \
		if (!(c)) pm_native_fail("P: " m);  \
	} while (0)
#define MODEL(c, m)                              \
	do {                                         \
		if (!(c)) pm_native_model("MODEL: " m);  \
	} while (0)
#define HINT(c, m) ((void)0)
#define PM_HINT(h) (-1L)
#define ASSUME(c)                           \
	do {                                    \
		if (!(c)) pm_native_assume(#c);     \
	} while (0)
#define REACH(m) ((void)0)
#endif

/* the program gives up (exit(1), uncaught PARI error, abort) */
void pm_fatal(const char *why);
extern int pm_allow_exit; /* harness: exit() is an acceptable outcome */
extern long pm_try_live, pm_clone_live;
extern int pm_allow_err;  /* harness: a PARI error is an acceptable outcome */

unsigned long nd_raw(void);
unsigned long nd_bits(unsigned k);         /* arbitrary k-bit value */
unsigned long nd_range(unsigned long lo, unsigned long hi); /* inclusive */
static inline bool nd_bool(void) { return (bool)nd_bits(1); }

/* ---- integers ---------------------------------------------------------- */
val_t pm_l(long x);   /* a C long as a value; must fit the encoding */
val_t pm_ul(ulong x);
val_t pm_v(GEN x);    /* value of a t_INT */
GEN pm_mk(val_t v);   /* fresh t_INT on the PARI stack */
GEN pm_mkclone(val_t v);
#define pm_isint(x) (typ(x) == t_INT)
val_t pm_mulmod(val_t a, val_t b, val_t m);

/* Shape hints: when >= 0 the model asserts that the length it is about to
 * compute equals the hint and then uses the (constant) hint. */
extern long pm_hint_bits, pm_hint_strlen, pm_hint_prime, pm_hint_set, pm_hint_glen, pm_hint_pol;

/* number of words of the object x points to: a constant loop bound where
 * lg(x) itself is symbolic */
#ifdef VCBMC
#define PM_CAP(x) ((long)(__CPROVER_OBJECT_SIZE(x) / sizeof(long)))
#else
#define PM_CAP(x) lg(x)
#endif
/* for each component index of x */
#define PM_EACH(i, from, x) for (long i = (from), i##_c = PM_CAP(x), i##_l = lg(x); i < i##_c; i++) if (i < i##_l)

/* ---- lifetimes --------------------------------------------------------- */
/* A single arbitrary allocation is watched; pm_live(x) is false iff x is the
 * watched chunk and the stack has since been popped below it. */
void pm_watch_init(void);
bool pm_live(GEN x);

/* ---- number theory ----------------------------------------------------- */
bool pm_isprime_v(val_t v);

#endif
/* fixes the length of a string for the encoding (checked when it is used) */
#ifdef VCBMC
void pm_strreg(const char *p, size_t n);
#else
#define pm_strreg(p, n) ((void)0)
#endif
/* an arbitrary string of n characters other than NUL in [lo, hi] */
char *pm_mkstr(size_t n, int lo, int hi);
void pm_rand_mode(int m);
unsigned long pm_rand_bits(void);
#ifndef PM_H2
#define PM_H2
bool pm_isvec(long t);
val_t pm_mod(val_t a, val_t m);
val_t pm_fdiv(val_t a, val_t m);
bool pm_live_deep(GEN x);
GEN pm_mkff(ulong poly, ulong T);     /* element of F2[x]/T, as bit masks */
ulong pm_ffpoly(GEN x);
ulong pm_ffmod(GEN x);
bool pm_same(GEN x, GEN y);           /* structural equality of values */
#endif
