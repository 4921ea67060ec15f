/* C library stubs for the solver build only (the native replay uses libc). */
#include "pm.h"
#include <stdarg.h>
#include <stddef.h>
#include <stdio.h>
#ifdef VCBMC
#include <stdbool.h>
#include <stdlib.h>
#ifndef PM_NSTR
#define PM_NSTR 24
#endif
/* Strings whose length the harness fixes are registered with it: strlen then
 * asserts that the length is the registered one and continues with a constant.
 * The string functions below keep the register up to date. */
static struct { const char *p; size_t n; } pm_strs[PM_NSTR];
static unsigned pm_nstrs = 0;
void pm_strreg(const char *p, size_t n) {
	for (unsigned i = 0; i < pm_nstrs; i++)
		if (pm_strs[i].p == p) { pm_strs[i].n = n; return; }
	__CPROVER_assert(pm_nstrs < PM_NSTR, "MODEL: string register full");
	pm_strs[pm_nstrs].p = p;
	pm_strs[pm_nstrs++].n = n;
}
static size_t fixed_len(const char *s, size_t n) {
	bool ok = s[n] == 0;
	for (size_t i = 0; i < n; i++) ok = ok && s[i] != 0;
	HINT(ok, "string length");
	return n;
}
void *bsearch(const void *key, const void *base, size_t n, size_t size, int (*cmp)(const void *, const void *)) {
	size_t lo = 0, hi = n;
	while (lo < hi) {
		size_t mid = (lo + hi) / 2;
		const char *q = (const char *)base + mid * size;
		int c = cmp(key, q);
		if (c < 0) hi = mid;
		else if (c > 0) lo = mid + 1;
		else return (void *)q;
	}
	return NULL;
}
size_t strlen(const char *s) {
	if (PM_HINT(pm_hint_strlen) >= 0) return fixed_len(s, (size_t)pm_hint_strlen);
#ifndef PM_NOHINTS
	for (unsigned i = 0; i < pm_nstrs; i++)
		if (pm_strs[i].p == s) return fixed_len(s, pm_strs[i].n);
#endif
	size_t n = 0;
	while (s[n]) n++;
	return n;
}
char *strcpy(char *d, const char *s) {
	size_t n = strlen(s);
	for (size_t i = 0; i <= n; i++) d[i] = s[i];
	if (pm_nstrs) pm_strreg(d, n);
	return d;
}
char *strcat(char *d, const char *s) {
	size_t k = strlen(d), n = strlen(s);
	for (size_t i = 0; i <= n; i++) d[k + i] = s[i];
	if (pm_nstrs) pm_strreg(d, k + n);
	return d;
}
char *strdup(const char *s) {
	size_t n = strlen(s);
	char *r = malloc(n + 1);
	for (size_t i = 0; i <= n; i++) r[i] = s[i];
	if (pm_nstrs) pm_strreg(r, n);
	return r;
}
char *strstr(const char *h, const char *s) {
	size_t n = strlen(h), k = strlen(s);
	const char *r = 0;
	for (size_t i = 0; i + k <= n; i++) {
		bool eq = true;
		for (size_t j = 0; j < k; j++) eq = eq && h[i + j] == s[j];
		if (eq && !r) r = h + i;
	}
	return (char *)r;
}
int strcmp(const char *a, const char *b) {
	for (size_t i = 0;; i++) {
		if (a[i] != b[i]) return (unsigned char)a[i] < (unsigned char)b[i] ? -1 : 1;
		if (!a[i]) return 0;
	}
}
int strncmp(const char *a, const char *b, size_t n) {
	for (size_t i = 0; i < n; i++) {
		if (a[i] != b[i]) return (unsigned char)a[i] < (unsigned char)b[i] ? -1 : 1;
		if (!a[i]) return 0;
	}
	return 0;
}
static int low(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int strcasecmp(const char *a, const char *b) {
	for (size_t i = 0;; i++) {
		int x = low((unsigned char)a[i]), y = low((unsigned char)b[i]);
		if (x != y) return x < y ? -1 : 1;
		if (!x) return 0;
	}
}
static size_t put_num(char *d, size_t k, unsigned long v, unsigned base, int width, char pad, int neg, int prec) {
	char tmp[24];
	int n = 0;
	(void)prec;
	if (width > 0 && !neg && (pad == '0' || width == 1)) {
		/* fixed-width field: the value is required to fit it */
		for (int i = width - 1; i >= 0; i--) {
			unsigned q = (unsigned)(base == 16 ? v & 15 : v % base);
			d[k + i] = (char)(q < 10 ? '0' + q : 'a' + q - 10);
			v = base == 16 ? v >> 4 : v / base;
		}
		__CPROVER_assert(v == 0, "MODEL: number fits its printf field");
		return k + width;
	}
	do {
		unsigned q = (unsigned)(v % base);
		tmp[n++] = (char)(q < 10 ? '0' + q : 'a' + q - 10);
		v /= base;
	} while (v && n < 22);
	int tot = n + neg;
	if (pad == ' ') for (int i = tot; i < width; i++) d[k++] = ' ';
	if (neg) d[k++] = '-';
	if (pad == '0') for (int i = tot; i < width; i++) d[k++] = '0';
	while (n) d[k++] = tmp[--n];
	return k;
}
int vsprintf(char *d, const char *f, va_list ap) {
	size_t k = 0;
	while (*f) {
		if (*f != '%') { d[k++] = *f++; continue; }
		f++;
		char pad = ' ';
		int width = 0, lng = 0;
		if (*f == '0') { pad = '0'; f++; }
		while (*f >= '0' && *f <= '9') width = width * 10 + (*f++ - '0');
		while (*f == 'l' || *f == 'z') { lng = 1; f++; }
		if (*f == 's') {
			const char *s = va_arg(ap, const char *);
			while (*s) d[k++] = *s++;
		} else if (*f == 'c') {
			d[k++] = (char)va_arg(ap, int);
		} else if (*f == 'x' || *f == 'u') {
			unsigned long v = lng ? va_arg(ap, unsigned long) : (unsigned long)va_arg(ap, unsigned);
			k = put_num(d, k, v, *f == 'x' ? 16 : 10, width, pad, 0, 0);
		} else if (*f == 'd' || *f == 'i') {
			long v = lng ? va_arg(ap, long) : (long)va_arg(ap, int);
			k = put_num(d, k, v < 0 ? -(unsigned long)v : (unsigned long)v, 10, width, pad, v < 0, 0);
		} else if (*f == '%') {
			d[k++] = '%';
		} else {
			__CPROVER_assert(0, "MODEL: printf conversion");
		}
		f++;
	}
	d[k] = 0;
	return (int)k;
}
int sprintf(char *d, const char *f, ...) {
	va_list ap;
	va_start(ap, f);
	int r = vsprintf(d, f, ap);
	va_end(ap);
	return r;
}
int fprintf(FILE *s, const char *f, ...) { (void)s; (void)f; return 0; }
int printf(const char *f, ...) { (void)f; return 0; }
int vfprintf(FILE *s, const char *f, va_list ap) { (void)s; (void)f; (void)ap; return 0; }
int fflush(FILE *s) { (void)s; return 0; }
void perror(const char *s) { (void)s; }
#endif
