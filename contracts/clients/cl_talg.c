/* verified clients: combinations of talg.c calls whose result is a property of the pair */
#include "talg.h"
/* unconstrained parameters -> stationary coefficients -> back */
void cl_artrans_roundtrip(double *x, int p, double *y, double *z) {
    artrans(p, x, y);
    arinvtrans(p, y, z);
}
