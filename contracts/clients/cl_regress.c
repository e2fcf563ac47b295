/* verified clients: multiple regression through the regression object, prediction at a point */
#include "regression.h"
#include <math.h>
/* out: value, lower, upper, standard error of the p coefficients, then 16 scalars */
void cl_regress(int N, int p, int intercept, int method, double alpha, double *x, double *y, double *res, double *vc, double *out) {
    int i;
    reg_object o = reg_init(N, p);
    double *s = out + 4 * p;
    setIntercept(o, intercept);
    if (method == 1) setLLSMethod(o, "normal");
    if (method == 2) setLLSMethod(o, "svd");
    regress(o, x, y, res, vc, alpha);
    for (i = 0; i < p; ++i) {
        out[i] = o->beta[i].value;
        out[p + i] = o->beta[i].lower;
        out[2 * p + i] = o->beta[i].upper;
        out[3 * p + i] = o->beta[i].stdErr;
    }
    s[0] = o->sigma; s[1] = o->sigma_lower; s[2] = o->sigma_upper; s[3] = o->r2; s[4] = o->r2adj;
    s[5] = o->TSS; s[6] = o->ESS; s[7] = o->RSS; s[8] = o->df_ESS; s[9] = o->df_RSS;
    s[10] = isnan(o->FStat) ? -1 : o->FStat; s[11] = isnan(o->PVal) ? -1 : o->PVal;
    s[12] = o->loglik; s[13] = o->aic; s[14] = o->bic; s[15] = o->aicc;
    free_reg(o);
}
/* out: fitted value, variance of the mean prediction, variance of an individual prediction */
void cl_fitted(int N, int p, int intercept, double *x, double *y, double *at, double *out) {
    reg_object o = reg_init(N, p);
    double *res = (double*)malloc(sizeof(double) * N), *vc = (double*)malloc(sizeof(double) * p * p);
    setIntercept(o, intercept);
    regress(o, x, y, res, vc, 0.05);
    out[0] = fitted(o, at, vc, out + 1);
    free(res); free(vc);
    free_reg(o);
}
