/* verified clients: factor a square system, solve it, invert it */
#include "matrix.h"
void cl_solve(double *A, int N, double *b, int *ipiv, double *x, double *inv) {
    ludecomp(A, N, ipiv);
    linsolve(A, N, b, ipiv, x);
    minverse(A, N, ipiv, inv);
}
