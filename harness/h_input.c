/* Numbers and strings read from the user. */
#include "hs.h"
#include "io/input.h"
#include "io/output.h"
#include <string.h>
GEN pm_strtoi(const char *s);
#ifndef LEN
#define LEN 4 /* characters before the delimiter */
#endif
#ifndef TAIL
#define TAIL 0 /* 0: a delimiter ends the text, 1: the end of the input does, 2: nothing is left to read */
#endif
#ifndef SIGN
#define SIGN 0
#endif
#ifndef HEX
#define HEX 0
#endif
extern int delim;
FILE *err;
static config_t the_cfg;
static char text[LEN + 2];
static char *line_given;
static unsigned nfree;
static bool at_eof;
#define FULL (LEN + (TAIL == 0))
ssize_t pm_getdelim(char **line, size_t *n, int d, FILE *f);
ssize_t pm_getdelim(char **line, size_t *n, int d, FILE *f) {
	P(f == in && d == delim, "text is read from the input, up to its delimiter");
	P(*line == NULL || *n > 0, "a buffer of its own");
	line_given = malloc(LEN + 2);
	*line = line_given;
	*n = LEN + 2;
	at_eof = TAIL != 0;
#if TAIL == 2
	return -1;
#else
	for (int i = 0; i < LEN; i++) line_given[i] = text[i];
	if (TAIL == 0) line_given[LEN] = (char)d;
	line_given[FULL] = 0;
	return FULL;
#endif
}
int pm_feof(FILE *f);
int pm_ferror(FILE *f);
void pm_perror(const char *s);
int pm_feof(FILE *f) { (void)f; return at_eof; }
int pm_ferror(FILE *f) { (void)f; return 0; }
void pm_perror(const char *s) { (void)s; }
static void setup(void) {
	pm_watch_init();
	cfg = &the_cfg;
	in = (FILE *)text;
#ifndef VCBMC
	err = stderr;
#endif
	delim = nd_bool() ? ',' : '\n';
	for (int i = 0; i < LEN; i++) {
		text[i] = (char)nd_range(1, 127);
		ASSUME(text[i] != delim);
	}
}
/* the number written, or -1 if the text is not a number */
static bool wellformed;
static val_t written(void) {
	val_t v = 0;
	int i = SIGN;
	wellformed = TAIL != 2 && LEN > SIGN + (HEX ? 2 : 0);
	if (HEX) i += 2;
	for (; i < LEN; i++) {
		unsigned c = (unsigned char)text[i], d;
		if (c >= '0' && c <= '9') d = c - '0';
		else if (HEX && c >= 'a' && c <= 'f') d = c - 'a' + 10;
		else if (HEX && c >= 'A' && c <= 'F') d = c - 'A' + 10;
		else { d = 0; wellformed = false; }
		v = v * (HEX ? 16 : 10) + d;
	}
	return v;
}
/* the part after the sign, parsed as libpari does (on text whose base is fixed) */
GEN pm_strtoi(const char *s) {
	P(s == line_given + SIGN, "the digits follow the sign");
	const char *t = line_given + SIGN;
	val_t v = 0;
	bool end = false;
	if (HEX) t += 2;
	for (int i = 0; i < LEN + 2 - SIGN - 2 * HEX; i++) {
		unsigned c = (unsigned char)t[i], d = 99;
		if (c >= '0' && c <= '9') d = c - '0';
		else if (c >= 'a' && c <= 'f') d = c - 'a' + 10;
		else if (c >= 'A' && c <= 'F') d = c - 'A' + 10;
		if (d >= (HEX ? 16 : 10)) end = true;
		if (end) break;
		v = v * (HEX ? 16 : 10) + d;
	}
	return pm_mk(v);
}
static void number(void) {
	setup();
	if (LEN > 0) {
		if (SIGN) text[0] = '-';
		else ASSUME(text[0] != '-');
	}
	if (HEX && LEN >= SIGN + 2) { text[SIGN] = '0'; text[SIGN + 1] = nd_bool() ? 'x' : 'X'; }
	else if (LEN > SIGN + 1) ASSUME(!(text[SIGN] == '0' && (text[SIGN + 1] == 'x' || text[SIGN + 1] == 'X' || text[SIGN + 1] == 'b' || text[SIGN + 1] == 'B')));
}
static void h_num(bool prime, ulong bits, GEN r) {
	val_t v = written();
	P(pm_live(r), "a live number");
	val_t got = pm_v(r);
	if (TAIL == 2) {
		P(got == -2, "the end of the input is reported");
		REACH("end");
		return;
	}
	if (LEN == 0) {
		P(got == -1, "an empty line is refused");
		REACH("empty");
		return;
	}
	if (!wellformed) return;
	/* -1 and -2 are the documented codes of refusal */
	if (bits < 60 && v >> bits) {
		P(got == -1, "a number of more bits than asked for is refused");
		REACH("too big");
		return;
	}
	if (SIGN) v = -v;
	if (prime && !pm_isprime_v(v)) {
		P(got == -1 || (got == -2 && v == -2), "a composite is refused");
		REACH("composite");
		return;
	}
	P(got == v, "the number is read exactly as written");
	REACH("number");
}
void h_int(void) {
	number();
	ulong bits = nd_range(1, 40);
	h_num(false, bits, input_int(nd_bool() ? "x:" : NULL, bits));
}
void h_short(void) {
	number();
	h_num(false, 16, input_short("x:"));
}
void h_prime(void) {
	number();
	ulong bits = nd_range(1, 40);
	h_num(true, bits, input_prime("p:", bits));
}
void h_string(void) {
	setup();
#ifdef PLAIN
	for (int i = 0; i < LEN; i++) ASSUME(text[i] != '\n');
#endif
	GEN r = input_string("seed:");
	if (TAIL == 2) {
		P(r == NULL, "the end of the input is not a string");
		REACH("end");
		return;
	}
	P(r != NULL && typ(r) == t_STR, "a string");
	const char *s = GSTR(r);
	for (int i = 0; i < LEN; i++) P(s[i] == text[i], "the characters before the delimiter");
	P(s[LEN] == 0, "nothing after the delimiter");
	REACH("string");
}
