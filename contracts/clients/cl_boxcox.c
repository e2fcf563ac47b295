/* verified clients: combinations of library calls whose result is a property of the pair */
#include "boxcox.h"
/* transform and back */
void cl_boxcox_roundtrip(double *x, int N, double lambda, double *y, double *z) {
    boxcox_eval(x, N, lambda, y);
    inv_boxcox_eval(y, N, lambda, z);
}
/* the profile log-likelihood on a packed parameter block */
double cl_boxcox_loglik(double *x, int N, double lambda) {
    double *p, r;
    int i;
    p = (double*) malloc(sizeof(double) * (N + 1));
    p[0] = (double) N;
    for (i = 0; i < N; ++i) p[i + 1] = x[i];
    r = boxcox_loglik(lambda, p);
    free(p);
    return r;
}
