/* The ANSI X9.62 procedure: the value r (or the coefficient b over a binary
 * field) is the one the standard derives from the seed, whatever the hash
 * function returns, and a, b satisfy r b^2 = a^3. */
#include "hs.h"
#include "exhaustive/ansi.h"
#include "gen/seed.h"
#include "util/bits.h"
#ifndef TBITS
#define TBITS 163
#endif
#ifndef GBITS
#define GBITS 160
#endif
#ifndef KBITS
#define KBITS GBITS
#endif
#ifndef HLEN
#define HLEN 40
#endif
#define SBLK ((TBITS - 1) / 160)
#define HBITS (TBITS - 160 * SBLK)
static unsigned char hash[SBLK + 2][20];
static unsigned char seedb[(GBITS + 7) / 8];
static val_t seedv;
static unsigned ncall;
/* the hash function: arbitrary, but what it is applied to is fixed */
#ifdef SEEDSTAGE
static const unsigned char *hashed;
static size_t hashed_len;
#ifndef LEN
#define LEN 40
#endif
#ifndef PREFIX
#define PREFIX 0
#endif
#ifndef ANY
#define ANY 0
#endif
#endif
void bits_sha1(const bits_t *b, unsigned char out[20]) {
	ncall++;
#ifdef SEEDSTAGE
	hashed = b->bits;
	hashed_len = b->bitlen;
	for (int i = 0; i < 20; i++) out[i] = hash[0][i];
	return;
#endif
	unsigned k = ncall;
	P(k <= SBLK, "one hash per block of 160 bits");
	P(b->bitlen == GBITS, "the hashed string has the length of the seed");
	val_t v = (seedv + (val_t)k) & ((((val_t)1 << (GBITS - 1)) - 1) * 2 + 1);
	for (int i = 0; i < (GBITS + 7) / 8; i++) {
		unsigned char want = i < GBITS / 8 ? (unsigned char)(v >> (GBITS - 8 - 8 * i)) : (unsigned char)(v << (8 - GBITS % 8));
		P(b->bits[i] == want, "block k hashes the seed plus k modulo 2^g");
	}
	for (int i = 0; i < 20; i++) out[i] = hash[k][i];
}
GEN random_int(unsigned long bits) { /* as checked for the random helpers */
	val_t lo = (val_t)1 << (bits - 1);
#ifdef ABS
	return pm_mk(lo);
#endif
	return pm_mk(pm_between(lo, 2 * lo - 1));
}
static GEN sq_x, sq_y;
int Fp_issquare(GEN x, GEN p) {
	(void)p;
	sq_x = x;
#ifdef ABS
	sq_y = gen_1;
	return 1;
#else
	static int tries;
	if (tries++ < 1 && nd_bool()) { sq_y = NULL; return 0; }
	val_t pv = pm_v(p), y = pm_between(0, pv - 1);
	ASSUME(pm_mulmod(y, y, pv) == pm_mod(pm_v(x), pv));
	sq_y = pm_mk(y);
	return 1;
#endif
}
GEN Fp_sqrt(GEN x, GEN p) {
	(void)p;
	if (sq_x == NULL || pm_v(sq_x) != pm_v(x)) pm_fatal("square root of an untested value");
	return sq_y; /* NULL for a non-square */
}
#ifdef ABS
void gerepileall(pari_sp av, int n, ...) { (void)n; avma = av; } /* lifetimes: the small-field jobs */
static unsigned nr;
/* non-negative integers, without the generality of the model's */
static GEN mkpos(mag_t m) {
	GEN z = cgeti(PMLG);
	long nz = m != 0;
	for (int i = 0; i < PMW; i++) z[2 + i] = (long)(ulong)(m >> (64 * i));
	z[1] = (long)(evalsigne(nz) | (ulong)PMLG);
	return z;
}
static mag_t posv(GEN x) {
	mag_t m = 0;
	for (int i = PMW - 1; i >= 0; i--) m = (m << 64) | (mag_t)(ulong)x[2 + i];
	return m;
}
#if defined(VCBMC) && !defined(PM_NOHINTS)
GEN pm_stoi(long x) { HINT(x == 0 || x == 1, "a bit"); return mkpos((mag_t)(x & 1)); }
GEN pm_mulii(GEN x, GEN y) { /* the multiplications that make up r are by a single bit */
	if (nr) return mulii(x, y);
	HINT((x[2] & ~1L) == 0 && signe(x) >= 0 && signe(y) >= 0, "a product by one bit");
	return mkpos(x[2] & 1 ? posv(y) : 0);
}
GEN pm_addii(GEN x, GEN y) { /* and the sums of integers without common bits */
	mag_t a = posv(x), b = posv(y);
	HINT(signe(x) >= 0 && signe(y) >= 0 && (a & b) == 0, "a sum without carries");
	return mkpos(a | b);
}
GEN pm_modii(GEN x, GEN y) {
	HINT(signe(x) >= 0 && posv(y) == (mag_t)1 << GBITS, "a residue modulo the power of two");
	return mkpos(posv(x) & (((mag_t)1 << GBITS) - 1));
}
#else
GEN pm_modii(GEN x, GEN y) { return modii(x, y); }
GEN pm_stoi(long x) { return stoi(x); }
GEN pm_mulii(GEN x, GEN y) { return mulii(x, y); }
GEN pm_addii(GEN x, GEN y) { return addii(x, y); }
#endif
/* conversions of bit strings, as decided for the bit string properties */
GEN bits_to_i(const bits_t *b) {
	val_t v = 0;
	for (size_t i = 0; i < b->bitlen; i++) v = (v << 1) | (val_t)((b->bits[i / 8] >> (7 - i % 8)) & 1);
	return pm_mk(b->sign ? -v : v);
}
bits_t *bits_from_i(GEN i) {
	bits_t *b = bits_new(KBITS);
	val_t v = pm_v(i);
#if KBITS == 0
	HINT(v == 0, "length of an integer");
	return b;
#else
	HINT(v >= 0 && (v >> KBITS) == 0 && (v >> (KBITS - 1)) == 1, "length of an integer");
	for (int k = 0; k < KBITS; k++) b->bits[k / 8] |= (unsigned char)(((v >> (KBITS - 1 - k)) & 1) << (7 - k % 8));
	return b;
#endif
}
static val_t r_seen;
GEN Fp_invsafe(GEN a, GEN m) { (void)m; r_seen = pm_v(a); nr++; return gen_1; }
GEN field_ielement(GEN field, GEN in) { (void)field; return in; }
#endif
#ifdef SEEDSTAGE
/* ---- the seed stage ------------------------------------------------------ */
#include "util/str.h"
static GEN q_num, q_den;
GEN rdivii(GEN x, GEN y, long prec) { (void)prec; q_num = x; q_den = y; return mkvec2(x, y); }
GEN floorr(GEN q) { return truedivii(gel(q, 1), gel(q, 2)); } /* 64 bits of precision are exact here */
static char *given;
GEN input_string(const char *prompt) {
	(void)prompt;
	GEN z = cgetg(4 + LEN / 8, t_STR);
	char *c = (char *)(z + 1);
	for (int i = 0; i <= LEN; i++) c[i] = given[i];
#if PREFIX == 0
	pm_hint_strlen = LEN;
#endif
	return z;
}
static int hexval(char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
/* the digits of a hexadecimal string with an optional prefix, or NULL */
static const char *hexdigits(const char *s) {
	int from = PREFIX;
	for (int i = from; i < LEN; i++) if (hexval(s[i]) < 0) return NULL;
	return s + from;
}
static char *mk(bool any) {
	char *s = malloc(LEN + 1);
	for (int i = 0; i < LEN; i++) {
		s[i] = (char)nd_bits(8);
		ASSUME(s[i] != 0);
		if (!any && i >= PREFIX) ASSUME(hexval(s[i]) >= 0);
	}
#if PREFIX
	ASSUME(s[0] == '0' && (s[1] == 'x' || s[1] == 'X'));
#else
	ASSUME(!(s[0] == '0' && (s[1] == 'x' || s[1] == 'X')));
#endif
	s[LEN] = 0;
	return s;
}
void h_valid(void) {
	char *s = mk(true);
	bool want = hexdigits(s) != NULL && LEN - PREFIX >= 40;
	P(ansi_seed_valid(s) == want, "a seed is at least 40 hexadecimal digits, optionally prefixed");
	REACH("valid");
}
static void check(curve_t *c, int ret, const char *hex) {
	seed_t *s = c->seed;
	P(ret == 1 && s != NULL && s->type == SEED_ANSI, "a seed is recorded");
	P(s->seed->bitlen == 4 * (LEN - PREFIX), "four bits per digit");
	for (int i = PREFIX; i < LEN; i++)
		P(((s->seed->bits[(i - PREFIX) / 2] >> (((i - PREFIX) % 2) ? 0 : 4)) & 15) == hexval(hex[i]), "the seed is the string given");
	P(hashed == s->seed->bits && hashed_len == s->seed->bitlen && ncall == 1, "the hash is that of the seed");
	for (int i = 0; i < 20; i++) P(s->hash20[i] == hash[0][i], "the hash is kept");
	long t = itos(s->ansi.t), ss = itos(s->ansi.s), h = itos(s->ansi.h);
	P(t == (long)cfg->bits && ss * 160 + h == t && h >= 1 && h <= 160, "t = 160 s + h with 1 <= h <= 160");
}
static curve_t *before(void) {
	curve_t *c = curve_new();
	cfg->bits = nd_range(1, 2000);
	for (int i = 0; i < 20; i++) hash[0][i] = (unsigned char)nd_bits(8);
	return c;
}
void h_arg(void) {
	curve_t *c = before();
	char *s = mk(false);
	cfg->seed = s;
	check(c, ansi_gen_seed_argument(c, NULL, OFFSET_SEED), s);
	REACH("argument");
}
void h_input(void) {
	curve_t *c = before();
	given = mk(ANY);
#ifndef VCBMC
	err = stderr;
#endif
	bool ok = hexdigits(given) != NULL && LEN - PREFIX >= 40;
	int ret = ansi_gen_seed_input(c, NULL, OFFSET_SEED);
	if (ok) check(c, ret, given);
	else P(ret == 0 && c->seed == NULL && ncall == 0, "an invalid seed is asked for again");
	REACH("input");
}
#else
static curve_t *seeded(void) {
	curve_t *c = curve_new();
	cfg->bits = TBITS;
	cfg->seed_algo = SEED_ANSI;
	seed_t *s = seed_new();
	s->type = SEED_ANSI;
	c->seed = s;
	for (int i = 0; i < (GBITS + 7) / 8; i++) seedb[i] = (unsigned char)nd_bits(8);
	if (GBITS % 8) ASSUME((seedb[GBITS / 8] & ((1 << (8 - GBITS % 8)) - 1)) == 0);
	seedv = 0;
	for (int i = 0; i < (GBITS + 7) / 8; i++) seedv = (seedv << 8) | (val_t)seedb[i];
#if GBITS % 8
	seedv >>= 8 - GBITS % 8;
#endif
	/* the number of significant bits of the seed and its successors; or none:
	 * the string of all ones, whose successor is zero */
#if KBITS == 0
	ASSUME(seedv == (((val_t)1 << (GBITS - 1)) - 1) * 2 + 1);
#else
	val_t top = (val_t)1 << (KBITS - 1);
	ASSUME(seedv >= top && seedv + SBLK < 2 * top);
#endif
	s->seed = malloc(sizeof(bits_t));
	s->seed->bits = seedb;
	s->seed->bitlen = GBITS;
	s->seed->allocated = (GBITS + 7) / 8;
	s->seed->sign = false;
	for (int k = 0; k <= SBLK; k++) for (int i = 0; i < 20; i++) hash[k][i] = (unsigned char)nd_bits(8);
	s->hash20 = malloc(20);
	for (int i = 0; i < 20; i++) s->hash20[i] = hash[0][i];
	s->ansi.t = pm_mk(TBITS);
	s->ansi.s = pm_mk(SBLK);
	s->ansi.h = pm_mk(HBITS);
	pm_hint_bits = KBITS;
	return c;
}
static int hbit(int k, int j) { return (hash[k][j / 8] >> (7 - j % 8)) & 1; }
/* W = W0 || W1 || ... || Ws, W0 the h rightmost bits of the hash of the seed,
 * its leftmost bit cleared over prime fields */
static val_t expected(bool clear) {
	val_t r = 0;
	for (int j = 0; j < HBITS; j++) r = (r << 1) | (val_t)(j == 0 && clear ? 0 : hbit(0, 160 - HBITS + j));
	for (int k = 1; k <= SBLK; k++) for (int j = 0; j < 160; j++) r = (r << 1) | (val_t)hbit(k, j);
	return r;
}
#ifdef ABS
void h_fp(void) {
	cfg->field = FIELD_PRIME;
	curve_t *c = seeded();
	val_t want = expected(true);
	c->field = pm_mk(251);
	int ret = ansi_gen_equation(c, NULL, OFFSET_B);
	P(ret == 1, "succeeds");
	P(ncall == SBLK, "every block is hashed");
	P(nr >= 1 && r_seen == want, "the coefficients are derived from the r of the standard");
	P(pm_v(c->seed->ansi.r) == want, "the r reported is the r of the standard");
	REACH("fp");
}
void h_f2m(void) {
	cfg->field = FIELD_BINARY;
	curve_t *c = seeded();
	val_t want = expected(false);
	c->field = pm_mkff(2, 0x25);
	/* the shape of b: its length in bits */
	int ret = ansi_gen_equation(c, NULL, OFFSET_B);
	P(ncall == SBLK, "every block is hashed");
	if (want == 0) {
		P(ret == -3, "b = 0 sends the run back for another seed");
	} else {
		P(ret == 1, "succeeds");
		P(pm_v(c->b) == want, "b is the bit string of the standard");
		P(typ(c->a) == t_INT && pm_v(c->a) >= 0 && (pm_v(c->a) >> TBITS) == 0, "a is some element of the field");
	}
	REACH("f2m");
}
#else
/* the congruence, over small fields */
void h_eq(void) {
	pm_watch_init();
	cfg->field = FIELD_PRIME;
	curve_t *c = seeded();
	val_t r = expected(true), p = (val_t)nd_range(1UL << (TBITS - 1), (1UL << TBITS) - 1);
	ASSUME(pm_isprime_v(p) && p > 3);
	c->field = pm_mk(p);
	int ret = ansi_gen_equation(c, NULL, OFFSET_B);
	if (pm_mod(r, p) == 0) {
		P(ret == -3, "an r that vanishes sends the run back for another seed");
		REACH("vanishing");
	} else {
		P(ret == 1, "succeeds");
		P(pm_live(c->a) && pm_live(c->b) && pm_live(c->seed->ansi.r), "what is recorded is live");
		P(pm_v(c->seed->ansi.r) == r, "the r reported is the r of the standard");
		val_t a = pm_v(c->a), b = pm_v(c->b);
		P(a >= 0 && a < p && b >= 0 && b < p, "the coefficients are reduced");
		P(pm_mulmod(pm_mulmod(b, b, p), pm_mod(r, p), p) == pm_mulmod(pm_mulmod(a, a, p), a, p), "r b^2 = a^3");
		REACH("equation");
	}
}
#endif
#endif
