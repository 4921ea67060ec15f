/* libpari's formatted text, for the conversions ecgen uses. */
#include "pm.h"
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#ifndef PM_HEXCAP
#define PM_HEXCAP 40
#endif
extern long pm_paristr_live;
static const char hexd[] = "0123456789abcdef";
/* "0x" and at least w hexadecimal digits (checked against libpari 2.15) */
char *pm_hexstr(val_t v, long w) {
	MODEL(v >= 0, "hexadecimal form of a nonnegative integer");
	long n = w < 1 ? 1 : w;
	if (PM_HINT(0) >= 0) HINT(n * 4 >= PM_VALW - 1 || (v >> (n * 4)) == 0, "the value fits the stated digits");
	else while (n * 4 < PM_VALW - 1 && (v >> (n * 4)) != 0) n++;
	MODEL(n < PM_HEXCAP, "hexadecimal digits");
	char *s = malloc((size_t)n + 3);
	s[0] = '0';
	s[1] = 'x';
	for (long i = 0; i < n; i++) s[2 + i] = (n - 1 - i) * 4 >= PM_VALW ? '0' : hexd[(unsigned)(v >> ((n - 1 - i) * 4)) & 15];
	s[2 + n] = 0;
	pm_strreg(s, (size_t)n + 2);
	pm_paristr_live++;
	return s;
}
char *pm_decstr(val_t v) {
	char *s = malloc(PM_VALW / 3 + 4), t[PM_VALW / 3 + 4];
	int n = 0, k = 0;
	bool neg = v < 0;
	mag_t m = (mag_t)(neg ? -v : v);
	for (int i = 0; i < PM_VALW / 3 + 1; i++) {
		t[n++] = (char)('0' + (int)(m % 10));
		m = m / 10;
		if (m == 0) break;
	}
	if (neg) s[k++] = '-';
	while (n > 0) s[k++] = t[--n];
	s[k] = 0;
	pm_paristr_live++;
	return s;
}
static bool is(const char *f, const char *g) {
	int i = 0;
	for (; g[i]; i++) if (f[i] != g[i]) return false;
	return f[i] == 0;
}
char *pari_vsprintf(const char *f, va_list ap) {
	if (is(f, "%P0#*x")) {
		long w = va_arg(ap, long);
		GEN x = va_arg(ap, GEN);
		if (typ(x) != t_INT) pm_fatal("hexadecimal form of something that is not an integer");
		return pm_hexstr(pm_v(x), w);
	}
	if (is(f, "%Pi") || is(f, "%Pd") || is(f, "%Ps")) {
		GEN x = va_arg(ap, GEN);
		MODEL(typ(x) == t_INT, "decimal form of an integer");
		return pm_decstr(pm_v(x));
	}
	MODEL(0, "format of pari_sprintf");
	return NULL;
}
char *pari_sprintf(const char *f, ...) {
	va_list ap;
	va_start(ap, f);
	char *r = pari_vsprintf(f, ap);
	va_end(ap);
	return r;
}
