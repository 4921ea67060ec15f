/* The repository's types with the members of the seed union laid out one after
 * another: pointers in overlapping members defeat the solver's memory model.
 * Only reading a member other than the one last written would notice. */
#ifndef PM_TYPES_H
#define PM_TYPES_H
#include <limits.h>
#include <pari/pari.h>
/* (the padding only makes the size differ from that of a curve) */
#define union struct { GEN pm_pad[1]; } pm_pad_; struct
#include "misc/types.h"
#undef union
#endif
