/* Front door used by every harness build: the real PARI declarations (types,
 * GEN layout, prototypes) WITHOUT PARI's inline bodies; all bodies come from
 * the executable model of libpari in /verif/model. */
#ifndef VERIF_PARI_H
#define VERIF_PARI_H
#define PARI_NO_MPINL_H
#define PARI_NO_PARIINL_H
#define DISABLE_INLINE
#define INLINE extern
#include_next <pari/pari.h>
/* inline in libpari and declared nowhere else */
GEN addiu(GEN x, ulong y);
GEN addui(ulong y, GEN x);
#endif
