/* force-included into every /repo source compiled for a check */
#ifdef VCBMC
#define PM_IN_REPO 1
#include "pm_types.h"
/* ctype in the C locale, without the locale tables */
#include <ctype.h>
#undef isxdigit
#undef isdigit
#undef isspace
#undef tolower
#undef toupper
static inline int pm_isdigit(int c) { return c >= '0' && c <= '9'; }
static inline int pm_isxdigit(int c) { return pm_isdigit(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
static inline int pm_tolower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
static inline int pm_toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
#define isxdigit(c) pm_isxdigit(c)
#define isdigit(c) pm_isdigit(c)
#define isspace(c) ((c) == ' ' || ((c) >= 9 && (c) <= 13))
#define tolower(c) pm_tolower(c)
#define toupper(c) pm_toupper(c)
/* CBMC does not apply the default argument promotions to variadic arguments
 * (a char stays one byte): do it explicitly for the printf family. */
#include <stdio.h>
#define PM_A1(f, ...) f
#define PM_N_(a, b, c, d, e, g, h, i, n, ...) n
#define PM_N(...) PM_N_(__VA_ARGS__, 8, 7, 6, 5, 4, 3, 2, 1, 0)
#define PM_M0()
#define PM_M1(a) , (a) + 0
#define PM_M2(a, ...) , (a) + 0 PM_M1(__VA_ARGS__)
#define PM_M3(a, ...) , (a) + 0 PM_M2(__VA_ARGS__)
#define PM_M4(a, ...) , (a) + 0 PM_M3(__VA_ARGS__)
#define PM_M5(a, ...) , (a) + 0 PM_M4(__VA_ARGS__)
#define PM_M6(a, ...) , (a) + 0 PM_M5(__VA_ARGS__)
#define PM_M7(a, ...) , (a) + 0 PM_M6(__VA_ARGS__)
#define PM_CAT_(a, b) a##b
#define PM_CAT(a, b) PM_CAT_(a, b)
#define PM_REST(f, ...) PM_REST_(PM_N(0, ##__VA_ARGS__), ##__VA_ARGS__)
#define PM_REST_(n, ...) PM_CAT(PM_K, n)(__VA_ARGS__)
#define PM_K1(...)
#define PM_K2(...) PM_M1(__VA_ARGS__)
#define PM_K3(...) PM_M2(__VA_ARGS__)
#define PM_K4(...) PM_M3(__VA_ARGS__)
#define PM_K5(...) PM_M4(__VA_ARGS__)
#define PM_K6(...) PM_M5(__VA_ARGS__)
#define PM_K7(...) PM_M6(__VA_ARGS__)
#define PM_K8(...) PM_M7(__VA_ARGS__)
#define sprintf(d, ...) (sprintf)(d, PM_A1(__VA_ARGS__, 0) PM_REST(__VA_ARGS__))
#define snprintf(d, n, ...) (snprintf)(d, n, PM_A1(__VA_ARGS__, 0) PM_REST(__VA_ARGS__))
#endif
