/* verified clients: seasonal-trend decomposition with a given and with a periodic seasonal window */
#include "seastest.h"
void cl_stl(double *x, int N, int f, int *s_window, int *s_degree, int *t_window, int *t_degree, int *l_window, int *l_degree,
    int *s_jump, int *t_jump, int *l_jump, int *robust, int *inner, int *outer, double *seasonal, double *trend, double *remainder) {
    stl(x, N, f, "null", s_window, s_degree, t_window, t_degree, l_window, l_degree, s_jump, t_jump, l_jump, robust, inner, outer, seasonal, trend, remainder);
}
void cl_stl_period(double *x, int N, int f, int *s_degree, int *t_window, int *t_degree, int *l_window, int *l_degree,
    int *s_jump, int *t_jump, int *l_jump, int *robust, int *inner, int *outer, double *seasonal, double *trend, double *remainder) {
    stl(x, N, f, "period", NULL, s_degree, t_window, t_degree, l_window, l_degree, s_jump, t_jump, l_jump, robust, inner, outer, seasonal, trend, remainder);
}
/* two seasonal periods */
void cl_mstl2(double *x, int N, int *f, int *Nseas, int *s_window, double *lambda, int *iterate, double *s1, double *s2, double *trend, double *remainder) {
    double *seasonal[2];
    seasonal[0] = s1; seasonal[1] = s2;
    mstl(x, N, f, Nseas, s_window, lambda, iterate, seasonal, trend, remainder);
}
