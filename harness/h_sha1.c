/* SHA-1 against FIPS 180 written out independently: padding, message schedule
 * and compression, for every content of each length and each way of splitting
 * the message between two or three updates. */
#include <stddef.h>
#include <stdlib.h>
#include "pm.h"
#include "sha1/sha1.h"
#ifndef LEN
#define LEN 3
#endif
#ifndef S1
#define S1 0
#define S2 LEN
#endif
typedef unsigned int u32;
static u32 rol(u32 x, int n) { return (x << n) | (x >> (32 - n)); }
static void spec(const unsigned char *m, size_t n, unsigned char out[20]) {
	static unsigned char pad[LEN + 72];
	u32 h0 = 0x67452301, h1 = 0xefcdab89, h2 = 0x98badcfe, h3 = 0x10325476, h4 = 0xc3d2e1f0;
	size_t blocks = (n + 8) / 64 + 1;
	for (size_t i = 0; i < blocks * 64; i++) pad[i] = i < n ? m[i] : i == n ? 0x80 : 0;
	unsigned long long bits = (unsigned long long)n * 8;
	for (int i = 0; i < 8; i++) pad[blocks * 64 - 1 - i] = (unsigned char)(bits >> (8 * i));
	for (size_t k = 0; k < blocks; k++) {
		u32 w[80];
		for (int t = 0; t < 16; t++)
			w[t] = (((((((u32)pad[k * 64 + 4 * t] << 8) | pad[k * 64 + 4 * t + 1]) << 8) | pad[k * 64 + 4 * t + 2]) << 8) | pad[k * 64 + 4 * t + 3]);
		for (int t = 16; t < 80; t++) w[t] = rol(w[t - 3] ^ w[t - 8] ^ w[t - 14] ^ w[t - 16], 1);
		u32 a = h0, b = h1, c = h2, d = h3, e = h4;
		for (int t = 0; t < 80; t++) {
			u32 f, kt;
			if (t < 20) { f = ((c ^ d) & b) ^ d; kt = 0x5a827999; }
			else if (t < 40) { f = b ^ c ^ d; kt = 0x6ed9eba1; }
			else if (t < 60) { f = (b & c) | (d & (b | c)); kt = 0x8f1bbcdc; }
			else { f = b ^ c ^ d; kt = 0xca62c1d6; }
			u32 x = rol(a, 5) + f + e + w[t] + kt;
			e = d; d = c; c = rol(b, 30); b = a; a = x;
		}
		h0 += a; h1 += b; h2 += c; h3 += d; h4 += e;
	}
	u32 h[5] = {h0, h1, h2, h3, h4};
	for (int i = 0; i < 20; i++) { out[i] = (unsigned char)(h[i / 4] >> 24); h[i / 4] <<= 8; }
}
static unsigned char msg[LEN + 1], got[20], want[20];
#ifndef SYMLO
#define SYMLO 0
#define SYMHI LEN
#endif
static void fill(void) {
	for (int i = 0; i < LEN; i++) msg[i] = i >= SYMLO && i < SYMHI ? (unsigned char)nd_bits(8) : (unsigned char)(i * 37 + 11);
}
void h_sha(void) {
	SHA_CTX ctx;
	fill();
	SHA1_Init(&ctx);
	if (S1 > 0) SHA1_Update(&ctx, msg, S1);
	SHA1_Update(&ctx, msg + S1, S2 - S1);
	if (S2 < LEN) SHA1_Update(&ctx, msg + S2, LEN - S2);
	SHA1_Final(got, &ctx);
	spec(msg, LEN, want);
	bool same = true;
	for (int i = 0; i < 20; i++) same = same && got[i] == want[i];
	P(same, "the digest is the SHA-1 function of the message");
#ifndef NOREACH
	REACH("sha");
#endif
}
/* the length counter over its whole 64-bit range */
void h_count(void) {
	SHA_CTX ctx;
	SHA1_Init(&ctx);
	u32 lo = (u32)nd_bits(32), hi = (u32)nd_bits(32);
	ASSUME((lo & 7) == 0);
	ctx.sizeLo = lo;
	ctx.sizeHi = hi;
	unsigned char x = (unsigned char)nd_bits(8);
	SHA1_Update(&ctx, &x, 1);
	unsigned long long was = ((unsigned long long)hi << 32) | lo, now = ((unsigned long long)ctx.sizeHi << 32) | ctx.sizeLo;
	P(now == was + 8, "the message length is counted in 64 bits");
	REACH("count");
}
/* the digest of a bit string is that of its bytes */
#ifdef BITLEN
#include "util/bits.h"
void h_bits(void) {
	bits_t *b = malloc(sizeof(bits_t));
	b->bits = msg;
	b->bitlen = BITLEN;
	b->allocated = LEN;
	b->sign = false;
	fill();
	bits_sha1(b, got);
	spec(msg, LEN, want);
	bool same = true;
	for (int i = 0; i < 20; i++) same = same && got[i] == want[i];
	P(same, "the digest of a bit string is the SHA-1 function of its bytes");
	REACH("bits");
}
#endif
