#ifndef PM_NT_H
#define PM_NT_H
#include "pm.h"
#ifndef PM_NFAC
#define PM_NFAC 4
#endif
#ifndef PM_GCDBITS
#define PM_GCDBITS 10
#endif
#ifndef PM_GCD_STEPS
#define PM_GCD_STEPS 16
#endif
#ifdef VCBMC
#define PM_SMALLINT __CPROVER_bitvector[8]
#else
#define PM_SMALLINT _BitInt(8)
#endif
#ifndef PM_ZNORDER_MAX
#define PM_ZNORDER_MAX 16
#endif
#ifndef PM_NKR
#define PM_NKR 8
#endif
struct pm_fac { val_t n, p[6]; int e[6]; int k; };
/* declares n = prod p_i^e_i (k and e concrete, primes arbitrary ascending) and
 * returns n; factor(n) then has this constant shape */
val_t pm_reg_factor(int k, const val_t *p, const int *e);
val_t pm_between(val_t lo, val_t hi);
val_t pm_gcd(val_t a, val_t b);
#endif
