#ifndef PM_ELL_H
#define PM_ELL_H
#include "pm_nt.h"
#ifndef PM_NCURVES
#define PM_NCURVES 4
#endif
/* The group of a model curve is Z/n1 x Z/n2 (n2 | n1); points are vectors
 * [i, j] of discrete logarithms (opaque to the code under test). */
struct pm_curve {
	bool used, twistknown;
	val_t p;       /* prime, or 2 */
	ulong T;       /* defining polynomial mask when p == 2 */
	val_t a, b;
	val_t n1, n2;
};
extern struct pm_curve pm_curves[PM_NCURVES];
extern int pm_ncurves;
int pm_curve_id(GEN E);
val_t pm_card(GEN E);
/* a nonsingular curve structure with the given group, coefficients opaque */
GEN pm_mkE(val_t p, val_t a, val_t b, val_t n1, val_t n2);
GEN pm_mkpt(val_t i, val_t j);
val_t pm_ptorder(GEN E, GEN P);
GEN pm_slot(GEN E, long tag);
#endif
