/* util/random.c: every draw lies in its stated range. */
#include "pm_nt.h"
#include "util/random.h"
#include <stdio.h>
extern ulong pm_random_seedval;
#ifndef KB
#define KB 9
#endif
/* the documented range is [2^(b-1), 2^b], both ends included */
static bool in_bits(val_t v, ulong b) { return v >= ((val_t)1 << (b - 1)) && v <= ((val_t)1 << b); }
void h_int(void) {
	pm_watch_init();
	ulong b = nd_range(1, KB);
	GEN r = random_int(b);
	P(in_bits(pm_v(r), b), "a random integer lies in the documented range");
	P(pm_live(r), "the result survives");
	REACH("int");
}
/* every integer of that size can be drawn */
void h_int_all(void) {
	ulong b = nd_range(1, KB);
	val_t want = (val_t)nd_range(1, (1UL << KB) - 1);
	ASSUME(in_bits(want, b));
	GEN r = random_int(b);
#ifdef VCBMC
	ASSUME(pm_v(r) == want);
	if (want == 1) { REACH("lowest"); }
	if (want == (1 << KB) - 1) { REACH("highest"); }
	if (b == 5 && want == 16) { REACH("lowest5"); }
	if (b == 5 && want == 31) { REACH("highest5"); }
#endif
	P(true, "-");
}
void h_prime(void) {
	pm_watch_init();
	ulong b = nd_range(2, KB);
	GEN r = random_prime(b);
	P(pm_isprime_v(pm_v(r)), "a random prime is prime");
	P(in_bits(pm_v(r), b), "and lies in the documented range");
	P(pm_live(r), "the result survives");
	REACH("prime");
}
void h_range(void) {
	pm_watch_init();
	val_t lo = (val_t)nd_range(0, 1000) - 500, d = (val_t)nd_range(0, 500);
	pari_sp av = avma;
	GEN r = random_range(pm_mk(lo), pm_mk(lo + d));
	val_t v = pm_v(r);
	P(d == 0 ? v == lo : (v >= lo && v < lo + d), "a draw lies in the half-open range");
	P(pm_live(r), "the result survives");
	REACH("range");
	if (d == 7 && v == lo) { REACH("range-low"); }
	if (d == 7 && v == lo + 6) { REACH("range-high"); }
}
void h_field(void) {
	pm_watch_init();
	val_t p = (val_t)nd_range(2, 1000);
	GEN f = pm_mk(p);
	GEN e = random_field_element(f);
	P(typ(e) == t_INTMOD && pm_v(gel(e, 1)) == p, "an element of that prime field");
	val_t v = pm_v(gel(e, 2));
	P(v >= 0 && v < p, "reduced");
	REACH("field");
	if (p == 7 && v == 0) { REACH("zero"); }
	if (p == 7 && v == 6) { REACH("last"); }
}
void h_field2(void) {
	static const ulong T[] = {0x13, 0x1b, 0x25, 0x187};
	int i = (int)nd_range(0, 3);
	for (int k = 0; k < 4; k++)
		if (k == i) {
			GEN f = pm_mkff(2, T[k]);
			GEN e = random_field_element(f);
			P(typ(e) == t_FFELT && pm_ffmod(e) == T[k], "an element of that binary field");
		}
	REACH("field2");
}
/* seeding: the operating system's bytes, however many come per read */
static unsigned char bytes[8];
static int pos, opened, closed;
FILE *pm_fopen(const char *n, const char *m) {
	(void)n; (void)m;
	if (nd_bool()) return NULL;
	opened++;
	return (FILE *)bytes;
}
size_t pm_fread(void *d, size_t s, size_t n, FILE *f) {
	(void)f;
	P(s == 1 && n <= (size_t)(8 - pos), "reads no more than the seed holds");
	size_t k = (size_t)nd_range(pos < 4 ? 0 : 1, 4);
	if (pos < 4) ASSUME(k > 0);
	if (k > n) k = n;
	for (size_t i = 0; i < 4; i++) if (i < k) ((unsigned char *)d)[i] = bytes[pos + i];
	pos += (int)k;
	return k;
}
int pm_fclose(FILE *f) { P(f == (FILE *)bytes, "closes what it opened"); closed++; return 0; }
static long nsec;
int pm_clock_gettime(clockid_t c, struct timespec *t) { (void)c; if (nd_bool()) return -1; t->tv_nsec = nsec; return 0; }
time_t pm_time(time_t *t) { (void)t; return 12345; }
void h_seed(void) {
	ulong want = 0;
	for (int i = 0; i < 8; i++) { bytes[i] = (unsigned char)nd_bits(8); want |= (ulong)bytes[i] << (8 * i); }
	nsec = (long)nd_range(1, 999999999);
	pari_sp av = avma;
	P(random_init(), "initialisation succeeds");
	P(opened == closed, "the entropy source is closed");
	P(!opened || pos == 8, "a full seed is read");
	if (opened && want) P(pm_random_seedval == want, "the generator is seeded with the bytes read");
	else P(pm_random_seedval == (ulong)nsec || pm_random_seedval == 12345, "the clock is the fallback");
	P(avma == av, "no stack residue");
	REACH("seed");
}
