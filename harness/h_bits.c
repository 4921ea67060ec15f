/* Bit strings: conversions and algebra against a reference that keeps the
 * string as (value, length), most significant bit first. */
#include "pm.h"
#include "util/bits.h"
#include "util/memory.h"
/* the exact lengths explored by this job, e.g. -DL=0,1,7,8,9 */
#ifndef KLA
#define KLA 0, 1, 7, 8, 9
#endif
#ifndef KLB
#define KLB 0, 1, 7, 8, 9
#endif
#ifndef SIGN
#define SIGN 0
#endif
#ifndef HI
#define HI 20
#endif
static const size_t lens[] = {KLA}, lens2[] = {KLB};
#define LENS(n) for (size_t n, n##_i = 0; n##_i < sizeof lens / sizeof *lens && (n = lens[n##_i], 1); n##_i++)
#define LENS2(n) for (size_t n, n##_i = 0; n##_i < sizeof lens2 / sizeof *lens2 && (n = lens2[n##_i], 1); n##_i++)

static int bit(const bits_t *b, size_t i) { return (b->bits[i / 8] >> (7 - i % 8)) & 1; }
/* value of the string; also checks the representation invariant */
static unsigned long val(const bits_t *b, size_t n) {
	P(b->bitlen == n, "length of the result");
	P(b->allocated * 8 >= n, "storage covers the string");
	unsigned long v = 0;
	for (size_t i = 0; i < n; i++) v = (v << 1) | (unsigned long)bit(b, i);
	return v;
}
/* an arbitrary string of n bits; the storage beyond the last bit is whatever
 * the constructors leave there */
static bits_t *mk(size_t n, unsigned long v) {
	bits_t *b = bits_new(n);
	for (size_t i = 0; i < n; i++)
		if ((v >> (n - 1 - i)) & 1) b->bits[i / 8] |= (unsigned char)(1 << (7 - i % 8));
	return b;
}
static unsigned long any(size_t n) { return n ? nd_bits((unsigned)n) : 0; }
static unsigned long mask(size_t n) { return n >= 64 ? ~0UL : (1UL << n) - 1; }

/* ---- conversions --------------------------------------------------------- */
void h_int(void) { /* arbitrary value, arbitrary length up to HI bits */
	unsigned long v = nd_range(0, (1UL << HI) - 1);
	bool neg = nd_bool();
	ASSUME(!(neg && v == 0));
	GEN i = pm_mk(neg ? -(val_t)v : (val_t)v);
	pari_sp av = avma;
	bits_t *b = bits_from_i(i);
	P(avma == av, "no stack residue");
	size_t len = 0;
	for (size_t k = 0; k < HI; k++) if ((v >> k) & 1) len = k + 1;
	P(b->bitlen == len, "bit length of an integer is that of its magnitude");
	P(b->sign == neg, "sign kept");
	for (size_t k = 0; k < HI; k++) if (k < len) P(bit(b, k) == (int)((v >> (len - 1 - k)) & 1), "bits are the binary expansion");
	GEN r = bits_to_i(b);
	P(pm_v(r) == pm_v(i), "int -> bits -> int is the identity");
	bits_free(&b);
	P(b == NULL, "freed handle is cleared");
	REACH("int");
}
void h_int_len(void) {
	LENS(n)
		for (size_t l = 0; l <= n; l++) { /* l: bit length of the integer */
			unsigned long v = l ? (1UL << (l - 1)) | any(l - 1) : 0;
			pm_hint_bits = (long)l;
			bits_t *b = bits_from_i_len(pm_mk((val_t)v), n);
			pm_hint_bits = -1;
			P(val(b, n) == v, "integer written into exactly n bits");
			bits_free(&b);
		}
	REACH("int_len");
}
void h_to_i(void) {
	LENS(n) {
		unsigned long v = any(n);
		bool neg = nd_bool();
		bits_t *b = mk(n, v);
		b->sign = neg;
		GEN g = bits_to_i(b);
		P(pm_v(g) == (neg ? -(val_t)v : (val_t)v), "value of a bit string as an integer");
		P(pm_v(gen_0) == 0 && pm_v(gen_1) == 1, "library constants untouched");
		bits_free(&b);
	}
	REACH("to_i");
}
static char hexdig(unsigned q, bool up) { return (char)(q < 10 ? '0' + q : (up ? 'A' : 'a') + q - 10); }
void h_hex(void) {
	LENS(n) { /* n nibbles */
		char s[HI + 1];
		unsigned long v = 0;
		for (size_t i = 0; i < n; i++) {
			unsigned q = (unsigned)nd_bits(4);
			s[i] = hexdig(q, nd_bool());
			v = (v << 4) | q;
		}
		s[n] = 0;
		pm_hint_strlen = (long)n;
		bits_t *b = bits_from_hex(s);
		pm_hint_strlen = -1;
		P(val(b, 4 * n) == v, "hex digits are read most significant first");
		b->sign = SIGN;
		char *o = bits_to_hex(b);
		size_t len = 2 * ((4 * n + 7) / 8), off = b->sign ? 1 : 0;
		if (off) P(o[0] == '-', "sign is printed");
		for (size_t i = 0; i < len; i++) P(o[off + i] == hexdig((unsigned)(v >> (4 * (len - 1 - i))) & 15, false), "hex output is the value, byte padded");
		P(o[off + len] == 0, "hex output is terminated");
		try_free(o);
		bits_free(&b);
	}
	REACH("hex");
}
void h_tohex(void) { /* any bit length */
	LENS(n) {
		unsigned long v = any(n);
		bits_t *b = mk(n, v);
		b->sign = SIGN;
		size_t len = 2 * ((n + 7) / 8), off = b->sign ? 1 : 0;
		char *o = bits_to_hex(b);
		if (off) P(o[0] == '-', "sign is printed");
		for (size_t i = 0; i < len; i++) P(o[off + i] == hexdig((unsigned)(v >> (4 * (len - 1 - i))) & 15, false), "hex of an arbitrary length string");
		P(o[off + len] == 0, "terminated");
		try_free(o);
		bits_free(&b);
	}
	REACH("tohex");
}
void h_bin(void) {
	LENS(n) {
		char s[HI + 1];
		unsigned long v = any(n);
		for (size_t i = 0; i < n; i++) s[i] = ((v >> (n - 1 - i)) & 1) ? '1' : '0';
		s[n] = 0;
		pm_hint_strlen = (long)n;
		bits_t *b = bits_from_bin(s);
		pm_hint_strlen = -1;
		P(val(b, n) == v, "binary digits");
		b->sign = SIGN;
		char *o = bits_to_bin(b);
		size_t off = b->sign ? 1 : 0;
		if (off) P(o[0] == '-', "sign is printed");
		for (size_t i = 0; i < n; i++) P(o[off + i] == s[i], "binary output");
		P(o[off + n] == 0, "terminated");
		try_free(o);
		bits_free(&b);
	}
	REACH("bin");
}
void h_raw(void) {
	LENS(n) {
		unsigned char buf[(HI + 7) / 8 + 1];
		for (size_t i = 0; i < sizeof buf; i++) buf[i] = (unsigned char)nd_bits(8);
		bits_t *b = bits_from_raw(buf, n);
		for (size_t i = 0; i < n; i++) P(bit(b, i) == ((buf[i / 8] >> (7 - i % 8)) & 1), "raw bytes are taken bit for bit");
		P(b->bitlen == n && !b->sign, "raw: length");
		P(bits_to_rawlen(b) == (n + 7) / 8, "raw length");
		unsigned char *o = bits_to_raw(b);
		P((o == NULL) == (n == 0), "raw output");
		for (size_t i = 0; i < n; i++) P(((o[i / 8] >> (7 - i % 8)) & 1) == ((buf[i / 8] >> (7 - i % 8)) & 1), "raw round trip");
		/* nothing of the unused trailing bits may surface later */
		bits_t *l = bits_lengthen(b, -3);
		unsigned long v = 0;
		for (size_t i = 0; i < n; i++) v = (v << 1) | (unsigned long)((buf[i / 8] >> (7 - i % 8)) & 1);
		P(val(l, n + 3) == v << 3, "lengthening a raw string appends zeros");
		GEN vec = bits_to_bitvec(b);
		P(glength(vec) == (long)n, "bit vector length");
		for (size_t i = 0; i < n; i++) P(vec[i + 1] == bit(b, i), "bit vector");
		bits_t *c = bits_from_bitvec(vec);
		P(bits_eq(b, c), "bit vector round trip");
		if (o) try_free(o);
		bits_free(&b);
		bits_free(&l);
		bits_free(&c);
	}
	REACH("raw");
}

/* ---- algebra -------------------------------------------------------------- */
void h_two(void) { /* two operand operations: every pair of lengths */
	LENS(n)
		LENS2(m) {
			unsigned long v = any(n), w = any(m);
			bits_t *a = mk(n, v), *b = mk(m, w);
			size_t l = n > m ? n : m;
			bits_t *r = bits_or(a, b);
			P(val(r, l) == (v | w), "or, right aligned");
			bits_free(&r);
			r = bits_and(a, b);
			P(val(r, l) == (v & w), "and, right aligned");
			bits_free(&r);
			r = bits_and(b, a);
			P(val(r, l) == (v & w), "and commutes");
			bits_free(&r);
			r = bits_concat(a, b, NULL);
			P(val(r, n + m) == ((v << m) | w), "concatenation");
			bits_free(&r);
			r = bits_concat(a, b, a, NULL);
			P(val(r, n + m + n) == ((((v << m) | w) << n) | v), "concatenation of three");
			bits_free(&r);
			P(bits_eq(a, b) == (n == m && v == w), "equality is equality of contents");
			P(val(a, n) == v && val(b, m) == w, "operands unchanged");
			bits_cpy(a, b); /* copying an empty string over another keeps the latter */
			if (m == 0) {
				P(val(a, n) == v, "copying an empty string changes nothing");
			} else {
				P(val(a, m) == w, "copy over an existing string");
				P(bits_eq(a, b), "a copy equals its source");
				bits_lengthenz(a, -2);
				P(val(a, m + 2) == w << 2, "copied string extends with zeros");
			}
			bits_free(&a);
			bits_free(&b);
		}
	REACH("two");
}
void h_one(void) {
	LENS(n) {
		unsigned long v = any(n);
		bits_t *a = mk(n, v);
		bits_t *r = bits_not(a);
		P(val(r, n) == (~v & mask(n)), "complement");
		bits_free(&r);
		r = bits_rot(a);
		unsigned long rv = 0;
		for (size_t i = 0; i < n; i++) rv |= ((v >> i) & 1) << (n - 1 - i);
		P(val(r, n) == rv, "reversal");
		bits_rotz(r);
		P(bits_eq(r, a), "reversal is an involution");
		bits_free(&r);
		r = bits_copy(a);
		P(r != a && (n == 0 || r->bits != a->bits), "a copy shares no storage");
		P(val(r, n) == v, "copy");
		bits_t *c = mk(n, v);
		c->sign = nd_bool();
		P(bits_eq(a, c) == !c->sign, "equality distinguishes signs");
		bits_t *d = bits_copy(c);
		P(d->sign == c->sign && bits_eq(c, d), "copy keeps the sign");
		bits_free(&r);
		bits_free(&c);
		bits_free(&d);
		P(val(a, n) == v, "operand unchanged");
		bits_free(&a);
	}
	REACH("one");
}
void h_shift(void) {
	LENS(un)
		for (long n = (long)un, k = -n - 2; k <= n + 2; k++) {
			unsigned long v = any((size_t)n);
			bits_t *a = mk((size_t)n, v);
			bits_t *r = bits_shift(a, k);
			unsigned long e = k >= 0 ? (v << k) & mask((size_t)n) : v >> -k;
			P(val(r, (size_t)n) == e, "shift keeps the length and drops bits");
			bits_free(&r);
			r = bits_shifti(a, k >= -n ? k : -n);
			if (k >= 0) P(val(r, (size_t)(n + k)) == v << k, "arithmetic shift left");
			else if (k >= -n) P(val(r, (size_t)(n + k)) == v >> -k, "arithmetic shift right");
			bits_free(&r);
			r = bits_lengthen(a, k);
			if (k >= 0) P(val(r, (size_t)(n + k)) == v, "lengthening at the front adds zeros");
			else P(val(r, (size_t)(n - k)) == v << -k, "lengthening at the end adds zeros");
			bits_free(&r);
			if (k <= n && k >= -n) {
				r = bits_shorten(a, k);
				if (k >= 0) P(val(r, (size_t)(n - k)) == (v & mask((size_t)(n - k))), "shortening at the front drops leading bits");
				else P(val(r, (size_t)(n + k)) == v >> -k, "shortening at the end drops trailing bits");
				bits_lengthenz(r, -3);
				if (k >= 0) P(val(r, (size_t)(n - k + 3)) == (v & mask((size_t)(n - k))) << 3, "dropped bits never come back");
				else P(val(r, (size_t)(n + k + 3)) == (v >> -k) << 3, "dropped bits never come back");
				bits_free(&r);
			}
			P(val(a, (size_t)n) == v, "operand unchanged");
			bits_free(&a);
		}
	REACH("shift");
}
void h_rotate(void) {
	LENS(un)
		for (long n = (long)un, k = -2 * n - 1; k <= 2 * n + 1; k++) {
			unsigned long v = any((size_t)n);
			bits_t *a = mk((size_t)n, v);
			bits_t *r = bits_shiftr(a, k);
			long t = n ? ((k % n) + n) % n : 0;
			P(val(r, (size_t)n) == (n ? ((v << t) | (v >> (n - t))) & mask((size_t)n) : 0), "rotation by any amount, either way");
			bits_free(&r);
			bits_free(&a);
		}
	REACH("rotate");
}
/* every bit of a random string carries one of the random bits drawn:
 * complementing all draws complements every position */
void h_rand(void) {
	LENS(n) {
		pm_rand_mode(1);
		bits_t *r = bits_new_rand(n);
		P(pm_rand_bits() >= n, "at least n random bits are drawn");
		unsigned long v = val(r, n);
		bits_t *l = bits_lengthen(r, -3);
		P(val(l, n + 3) == v << 3, "nothing beyond the last bit");
		pm_rand_mode(2);
		bits_t *q = bits_new_rand(n);
		P(val(q, n) == (~v & mask(n)), "every position is random");
		pm_rand_mode(0);
		bits_free(&r);
		bits_free(&q);
		bits_free(&l);
	}
	REACH("rand");
}
