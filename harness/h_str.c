/* util/str.c: joining, counting, hexadecimal recognition. */
#include "pm.h"
#include "util/str.h"
#include <stdlib.h>
void try_free(void *);
#ifndef KLA
#define KLA 2, 0, 3
#endif
#ifndef KSEP
#define KSEP 1
#endif
static const int kla[] = {KLA};
#define KN ((int)(sizeof kla / sizeof *kla))
#define SEPLEN (KSEP < 0 ? 0 : KSEP)
static char *strs[KN + 1], *sep;
static char empty[1];
static void setup(void) {
	pm_strreg(empty, 0); /* switches the register on */
	for (int i = 0; i < KN; i++) strs[i] = kla[i] < 0 ? NULL : pm_mkstr((size_t)kla[i], 1, 255);
	sep = KSEP < 0 ? NULL : pm_mkstr(SEPLEN, 1, 255);
}
static void expect(const char *r, int n, const char *s) {
	size_t k = 0;
	for (int i = 0; i < n; i++) {
		for (int j = 0; j < kla[i]; j++) P(r[k++] == strs[i][j], "pieces in order");
		if (s && i < n - 1) for (int j = 0; j < SEPLEN; j++) P(r[k++] == s[j], "separator between pieces");
	}
	P(r[k] == 0, "nothing after the last piece");
}
void h_join(void) {
	setup();
	char *r = str_join(sep, strs, KN);
	expect(r, KN, sep);
	try_free(r);
	REACH("join");
}
void h_concat(void) {
	setup();
	char *r = str_concat(strs, KN);
	expect(r, KN, NULL);
	try_free(r);
	REACH("concat");
}
/* no pieces at all: the empty string */
void h_none(void) {
	setup();
	char *r = str_join(sep, strs, 0);
	P(r[0] == 0, "joining nothing gives the empty string");
	try_free(r);
	r = str_concat(strs, 0);
	P(r[0] == 0, "joining nothing gives the empty string");
	try_free(r);
	REACH("none");
}
#define S(i) (i < KN ? strs[i] : NULL)
void h_joinv(void) {
	setup();
	char *r = str_joinv(sep, S(0), S(1), S(2), S(3), S(4), S(5), S(6), S(7), S(8), S(9), S(10), S(11), NULL);
	expect(r, KN, sep);
	try_free(r);
	REACH("joinv");
}
#ifndef LEN
#define LEN 6
#endif
static char buf[LEN + 1];
static void any_text(void) {
	for (int i = 0; i < LEN; i++) buf[i] = (char)nd_bits(8);
	buf[LEN] = 0;
}
void h_cnt(void) {
	any_text();
	char c = (char)nd_bits(8);
	ASSUME(c != 0);
	size_t n = 0;
	bool end = false;
	for (int i = 0; i < LEN; i++) {
		if (!buf[i]) end = true;
		if (!end && buf[i] == c) n++;
	}
	char keep[LEN + 1];
	memcpy(keep, buf, LEN + 1);
	P(str_cnt(buf, c) == n, "number of occurrences");
	for (int i = 0; i <= LEN; i++) P(keep[i] == buf[i], "the text is only read");
	REACH("cnt");
}
static bool hexc(char c) { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
void h_ishex(void) {
	any_text();
	int n = 0;
	while (n < LEN && buf[n]) n++;
	int from = n > 2 && buf[0] == '0' && (buf[1] == 'x' || buf[1] == 'X') ? 2 : 0;
	bool ok = true;
	for (int i = 0; i < LEN; i++) if (i >= from && i < n && !hexc(buf[i])) ok = false;
	const char *r = str_is_hex(buf);
	P((r != NULL) == ok, "recognised exactly when it is hexadecimal");
	if (r) P(r == buf + from, "the digits start after an optional 0x");
	REACH("ishex");
}
