SEEDS = []
def S(id, prop, needs, breaks, edits, demo, **kw): SEEDS.append(dict(id=id, prop=prop, needs=needs, breaks=breaks, edits=edits, demo=demo, **kw))
S('C01-a', 'C01', 'second operand longer than the first by at least 2', 'direct convolution with N<L drops a term of the tail region',
  [('src/conv.c', '			tmin = MIN(t1,L);', '			tmin = MIN(t1,L - 1);', 0)],
  '''#include "conv.h"
int main(void) { double a[3]={1,2,3}, b[6]={2,-1,4,0.5,3,7}, c[8]; int k,m;
 conv_direct(a,3,b,6,c);
 for(k=0;k<8;k++){ double s=0; for(m=0;m<3;m++) if(k-m>=0&&k-m<6) s+=a[m]*b[k-m]; near_(c[k],s,"conv",k);} return bad; }''')
S('C02-a', 'C02', 'seasonal order D >= 2 (tests use D <= 1)', 'seasonal differencing applies only the first seasonal lag twice: wrong coefficients from the second seasonal lag on',
  [('src/talg.c', '		for(j = s; j < d+1;j+=s) {\n			sum += sig[i-j]*coeff[j];', '		for(j = s; j < d+1;j+=D*s) {\n			sum += sig[i-j]*coeff[j];')],
  '''#include "talg.h"
int main(void) { double x[20], y[20]; int i,n; for(i=0;i<20;i++) x[i]=i*i+3*(i%4)+0.1*i*i*i;
 n=diffs(x,20,2,4,y); if(n!=12) bad=1; for(i=0;i<12;i++) near_(y[i],x[i+8]-2*x[i+4]+x[i],"diffs",i); return bad; }''')
S('C03-a', 'C03', 'more than half the series length of lags', 'autocovariance at large lags normalised by the number of terms instead of N',
  [('src/stats.c', '		acov[i] = acov[i] / N;', '		acov[i] = (2 * i > N) ? acov[i] / (N - i) : acov[i] / N;', 0)],
  '''#include "stats.h"
int main(void) { double x[9]={1,4,2,8,5,7,1,9,3}, a[9]; int k,t; double m=0; for(t=0;t<9;t++) m+=x[t]/9;
 autocovar(x,9,a,9); for(k=0;k<9;k++){ double s=0; for(t=0;t+k<9;t++) s+=(x[t]-m)*(x[t+k]-m); near_(a[k],s/9,"acov",k);} return bad; }''')
S('C04-a', 'C04', 'q larger than p with weights beyond q', 'psi weights lose the moving-average term at exactly lag q when q > p',
  [('src/talg.c', '		if(i <= q) {\n			psi[i] = th[i];', '		if(i < q || (i == q && q <= p)) {\n			psi[i] = th[i];')],
  '''#include "talg.h"
int main(void) { double phi[1]={0.5}, th[3]={0.3,-0.2,0.7}, psi[6], w[6]; int i; w[0]=1; for(i=1;i<6;i++) w[i]=(i<=3?th[i-1]:0)+0.5*w[i-1];
 psiweight(phi,th,psi,1,3,6); for(i=0;i<6;i++) near_(psi[i],w[i],"psi",i); return bad; }''')
S('C06-a', 'C06', 'even window with series end inside the window', 'even-window moving average gives the trailing end sample full weight',
  [('src/filter.c', '				if ( j == i - q || j == i + q) {\n					sum += 0.5 * temp[j];', '				if ( j == i - q || (j == i + q && j < N2 - 1)) {\n					sum += 0.5 * temp[j];')],
  '''#include "filter.h"
int main(void) { double x[7]={1,5,2,8,3,9,4}, y[7]; int k,j; mafilter(x,7,4,y);
 for(k=0;k<7;k++){ double s=0; for(j=-2;j<=2;j++){ int t=k+j; double v=t<0?x[0]:(t>6?x[6]:x[t]); s+=(j==-2||j==2)?0.5*v:v;} near_(y[k],s/4,"ma",k);} return bad; }''')
S('C07-a', 'C07', 'actual values of negative sign', 'mean percentage error takes percentages of the magnitude of the actual value, flipping sign for negative actuals',
  [('src/errors.c', '    pe(predicted,actual,N,errvec);\n    j = 0;\n    temp = 0.0;\n    for(i = 0; i < N;++i) {\n        if (errvec[i] == errvec[i]) {\n            j++;\n            temp += errvec[i];', '    pe(predicted,actual,N,errvec);\n    j = 0;\n    temp = 0.0;\n    for(i = 0; i < N;++i) {\n        if (errvec[i] == errvec[i]) {\n            j++;\n            temp += actual[i] < 0 ? -errvec[i] : errvec[i];')],
  '''#include "errors.h"
int main(void) { double a[4]={2,-4,5,-8}, p[4]={1,-3,6,-9}; double s=0; int i; for(i=0;i<4;i++) s+=100*(a[i]-p[i])/a[i]; near_(mpe(p,a,4),s/4,"mpe",0); return bad; }''')
S('C08-a', 'C08', 'small non-zero lambda', 'inverse Box-Cox treats a whole range of small lambda as zero',
  [('src/boxcox.c', '    if (lambda == 0) {\n        for(i = 0; i < N;++i) {\n            bxcx[i] = exp(x[i]);', '    if (fabs(lambda) < 1.0e-02) {\n        for(i = 0; i < N;++i) {\n            bxcx[i] = exp(x[i]);')],
  '''#include "boxcox.h"
int main(void) { double x[4]={0.5,2,30,100}, y[4], z[4]; int i; boxcox_eval(x,4,0.005,y); inv_boxcox_eval(y,4,0.005,z); for(i=0;i<4;i++) near_(z[i],x[i],"back",i); return bad; }''')
S('C05-a', 'C05', 'two row exchanges in a row where the second moves an already exchanged row', 'the permutation of a repeated row exchange is recorded as if the row were still in its original place',
  [('src/matrix.c', '			if (mval < fabs(A[j*N + k])) {\n				mval = fabs(A[j*N + k]);\n				mind = j;\n			}\n		}\n		\n		if ( mind != k) {\n			c1 = k *N;\n			c2 = mind * N;\n			tempi = ipiv[mind];\n			ipiv[mind] = ipiv[k];\n			ipiv[k] = tempi;', '			if (mval < fabs(A[j*N + k])) {\n				mval = fabs(A[j*N + k]);\n				mind = j;\n			}\n		}\n		\n		if ( mind != k) {\n			c1 = k *N;\n			c2 = mind * N;\n			tempi = ipiv[mind];\n			ipiv[mind] = k;\n			ipiv[k] = tempi;', 0)],
  '''#include "matrix.h"
int main(void) { double A[9]={1,2,4, 4,3,1, 2,7,3}, L[9], b[3]={7,8,9}, x[3]; int p[3], i,j; for(i=0;i<9;i++) L[i]=A[i];
 { double C[16]={0,1,0,0, 0,0,1,0, 0,0,0,1, 1,0,0,0}, K[16], c[4]={1,2,3,4}, y[4]; int q[4]; for(i=0;i<16;i++) K[i]=C[i];
   ludecomp(K,4,q); linsolve(K,4,c,q,y); for(i=0;i<4;i++){ double s=0; for(j=0;j<4;j++) s+=C[i*4+j]*y[j]; near_(s,c[i],"Ax",i);} }
 ludecomp(L,3,p); linsolve(L,3,b,p,x); for(i=0;i<3;i++){ double s=0; for(j=0;j<3;j++) s+=A[i*3+j]*x[j]; near_(s,b[i],"Ax",i);} return bad; }''')
S('C05-b', 'C05', 'strides that differ between the operands and at least two rows', 'strided matrix difference advances the second operand by the stride of the result',
  [('src/matrix.c', 'void msub_stride(double* A, double* B, double* C,int rows,int cols,int sA,int sB,int sC) {\n	int i,j,u,v,w;\n	 \n	for (i = 0; i < rows; ++i) {\n		u = i * sC;\n		v = i * sA;\n		w = i * sB;', 'void msub_stride(double* A, double* B, double* C,int rows,int cols,int sA,int sB,int sC) {\n	int i,j,u,v,w;\n	 \n	for (i = 0; i < rows; ++i) {\n		u = i * sC;\n		v = i * sA;\n		w = i * (sB > sC ? sC : sB);')],
  '''#include "matrix.h"
int main(void) { double A[12],B[15],C[9]; int i,j; for(i=0;i<15;i++){ if(i<12)A[i]=i*i; B[i]=3*i-1; if(i<9)C[i]=0; }
 msub_stride(A,B,C,3,2,4,5,3); for(i=0;i<3;i++) for(j=0;j<2;j++) near_(C[i*3+j],A[i*4+j]-B[i*5+j],"diff",i*2+j); return bad; }''')
S('C09-a', 'C09', 'autoregressive order of at least 3', 'Burg recursion leaves the middle reflection term out at even orders, so coefficients are wrong from order 3 on',
  [('src/initest.c', '		for (j = 0; j <= (i + 1) / 2; ++j) {', '		for (j = 0; j <= i / 2; ++j) {')],
  '''#include "initest.h"
int main(void) { double x[14]={1,3,-2,5,0.5,4,-1,2,6,-3,1,2.5,-0.5,3}, phi[4], v, f[14], b[14], a[5]={1,0,0,0,0}; int i,m,k,N=14;
 burgalg(x,N,4,phi,&v); for(i=0;i<N;i++) f[i]=b[i]=x[i];
 for(m=1;m<=4;m++){ double n=0,d=0,c[5],nf[14],nb[14]; for(i=m;i<N;i++){ n+=f[i]*b[i-1]; d+=f[i]*f[i]+b[i-1]*b[i-1]; } n=-2*n/d;
  for(k=0;k<=m;k++) c[k]=a[k]+n*a[m-k]; for(k=0;k<=m;k++) a[k]=c[k];
  for(i=m;i<N;i++){ nf[i]=f[i]+n*b[i-1]; nb[i]=b[i-1]+n*f[i]; } for(i=m;i<N;i++){ f[i]=nf[i]; b[i]=nb[i]; } }
 for(k=0;k<4;k++) near_(phi[k],-a[k+1],"phi",k); return bad; }''')
S('C09-b', 'C09', 'order of at least 4', 'Levinson-Durbin update overwrites coefficients that are still needed from the fourth order on',
  [('src/initest.c', '		for (j = 0; j <= k; ++j) {\n			z[j] = y[j] + a * y[k - j];\n		}\n\n		for (j = 0; j <= k; ++j) {\n			y[j] = z[j];\n		}\n		y[k + 1] = a;\n\n	}\n\n	for (j = 0; j < p; ++j) {\n		phi[j] = -1.0 * y[j];\n	}\n', '		for (j = 0; j <= k; ++j) {\n			z[j] = y[j] + a * ((k - j > 1 && k > 2) ? y[k - j - 1] : y[k - j]);\n		}\n\n		for (j = 0; j <= k; ++j) {\n			y[j] = z[j];\n		}\n		y[k + 1] = a;\n\n	}\n\n	for (j = 0; j < p; ++j) {\n		phi[j] = -1.0 * y[j];\n	}\n', 0)],
  '''#include "initest.h"
int main(void) { double x[12]={1,3,-2,5,0.5,4,-1,2,6,-3,1,2.5}, phi[5], r[6], m=0; int k,j,t,N=12; for(t=0;t<N;t++) m+=x[t]/N;
 for(k=0;k<6;k++){ r[k]=0; for(t=0;t+k<N;t++) r[k]+=(x[t]-m)*(x[t+k]-m); } ywalg(x,N,5,phi);
 for(k=1;k<=5;k++){ double s=0; for(j=0;j<5;j++) s+=phi[j]*r[abs(k-1-j)]; near_(s,r[k],"yw",k);} return bad; }''')
S('C10-a', 'C10', 'the query point equals an interior knot of an unsorted table', 'interpolation at a knot returns the value stored at the position before sorting',
  [('src/talg.c', '	if (z == x[i]) {\n		out = y[i];\n		free(x);', '	if (z == x[i]) {\n		out = (i > 0) ? yin[i] : y[i];\n		free(x);', 0)],
  '''#include "talg.h"
int main(void) { double x[5]={5,1,4,2,3}, y[5]={50,10,47,21,33}; near_(interpolate_linear(x,y,5,2.0),21,"knot",2); near_(interpolate_linear(x,y,5,3.0),33,"knot",3); near_(interpolate_linear(x,y,5,2.5),27,"mid",0); return bad; }''')
S('C11-a', 'C11', 'seasonal autoregressive order of at least 2 together with a non-seasonal term', 'cross terms of the second seasonal factor are placed at the first seasonal lag in the forecast polynomial',
  [('src/ctsa.c', '		for (i = 0; i < p; ++i) {\n			phi[(j + 1)*s + i] -= obj->phi[i] * obj->PHI[j];', '		for (i = 0; i < p; ++i) {\n			phi[s + j + i] -= obj->phi[i] * obj->PHI[j];', 0)],
  '''int main(void) { int N=40,i,k; double x[40], f[3], m[3], c[10]={0}, w[60]; sarima_object o; for(i=0;i<N;i++) x[i]=sin(0.7*i)+0.3*(i%4);
 o=sarima_init(1,0,0,4,2,0,0,N); o->phi[0]=0.4; o->PHI[0]=0.3; o->PHI[1]=0.2; o->mean=0.1; for(i=0;i<N;i++) o->res[i]=0;
 sarima_predict(o,x,3,f,m);
 c[1]=0.4; c[4]=0.3; c[5]=-0.12; c[8]=0.2; c[9]=-0.08; for(i=0;i<N;i++) w[i]=x[i]-0.1;
 for(i=0;i<3;i++){ w[N+i]=0; for(k=1;k<10;k++) w[N+i]+=c[k]*w[N+i-k]; near_(f[i],w[N+i]+0.1,"forecast",i);} sarima_free(o); return bad; }''')
S('C11-b', 'C11', 'at least two external regressors and a forecast horizon different from the series length', 'regression term of the forecast indexes the new regressors with the wrong stride',
  [('src/ctsa.c', '			xpred[i] += obj->exog[j] * newxreg[j*L+i];', '			xpred[i] += obj->exog[j] * newxreg[j*(L > 1 ? L - 1 : L)+i];', 0)],
  '''int main(void) { int N=20,L=3,i,j; double x[20], xr[40], nx[6]={1,2,4,-3,5,7}, f[3], m[3]; sarimax_object o; for(i=0;i<N;i++){ x[i]=cos(0.4*i); xr[i]=i*0.1; xr[N+i]=(i*i)%7; }
 o=sarimax_init(1,0,0,0,0,0,0,2,0,N); o->phi[0]=0.5; o->exog[0]=2; o->exog[1]=-1; o->mean=0; for(i=0;i<N;i++) o->res[i]=0;
 sarimax_predict(o,x,xr,L,nx,f,m); { double w=x[N-1]-2*xr[N-1]+xr[2*N-1]; for(i=0;i<L;i++){ w*=0.5; near_(f[i],w+2*nx[i]-nx[L+i],"forecast",i);} } sarimax_free(o); return bad; }''')
S('C12-a', 'C12', 'a moving-average polynomial longer than the autoregressive one with both a seasonal and a non-seasonal part', 'the first residuals of a seasonal recursion use moving-average terms that reach before the first residual',
  [('src/emle.c', '		if (i - ncond < iq) {\n			jm = i - ncond;', '		if (i - ncond < q + qs) {\n			jm = i - ncond;', 1)],
  '''#include "emle.h"
int main(void) { int N=12,i,j,t; double v, b[2]={0.5,0.4}, e[12], w[12], th[6]={0,0.5,0,0,0.4,0.2}; alik_css_seas_object o=alik_css_seas_init(0,1,1,4,0,0,1,N);
 for(i=0;i<N;i++) o->x[o->offset+i]=o->x[o->offset+2*N+i]=w[i]=((i*i*7)%11)-5; o->M=0;
 v=fcss_seas(b,2,o); { double s=0; for(t=0;t<N;t++){ e[t]=w[t]; for(j=1;j<6;j++) if(t-j>=0) e[t]-=th[j]*e[t-j]; s+=e[t]*e[t]; } near_(v,0.5*log(s/N),"objective",0); } return bad; }''')
S('C12-b', 'C12', 'at least two regressors together with both ordinary and seasonal differencing', 'the second regressor is taken from its undifferenced place when both differencings are applied',
  [('src/emle.c', '				diff(x0+N1*i,N1,d,XX+N*i);', '				diff(x0+length*i,N1,d,XX+N*i);', 1)],
  '''#include "emle.h"
int main(void) { int N=36,i,k,t,n; double x[36],xr[72],phi[1],th[1],PH[1],TH[1],ex[2],m=0,v,ll,h[9],w[36],z[2][36]; unsigned s=12345;
 for(t=0;t<N;t++){ s=s*1103515245u+12345u; x[t]=((s>>16)%1000)/500.0-1; s=s*1103515245u+12345u; xr[t]=((s>>16)%1000)/300.0; s=s*1103515245u+12345u; xr[N+t]=((s>>16)%1000)/200.0-2; x[t]+=2*xr[t]-xr[N+t]; }
 for(t=N-1;t>=0;t--) ; phi[0]=0; if(cssx(x,N,xr,5,1,1,0,4,0,1,0,phi,th,PH,TH,ex,2,&m,&v,&ll,h,0,1)!=1) return 0;
 n=N-5; { double ss=0,e[36],u[36]; for(t=0;t<n;t++){ int a=t+5; double q=0; for(k=0;k<4;k++){ int l=(k==0)?0:(k==1)?1:(k==2)?4:5; double c=(k==0||k==3)?1:-1; q+=c*(x[a-l]-ex[0]*xr[a-l]-ex[1]*xr[N+a-l]); } u[t]=q; }
  for(t=1;t<n;t++){ e[t]=u[t]-phi[0]*u[t-1]; ss+=e[t]*e[t]; } if(!(fabs(exp(2*ll)-ss/(n-1))<=0.005*(ss/(n-1)+0.001))){ printf("likelihood %g, residuals %g\\n",exp(2*ll),ss/(n-1)); bad=1; } } return bad; }''')
S('C13-a', 'C13', 'a pure moving average of order 3 or more', 'start covariance of long pure moving averages lacks the accumulated terms of its first row',
  [('src/emle.c', '				if (j != 0)  {\n					indn--;\n					P[ind] += P[indn];\n				}', '				if (j != 0)  {\n					indn--;\n					if (i < ir - 1 || j < 3) P[ind] += P[indn];\n				}')],
  '''#include "emle.h"
int main(void) { double ph[5]={0}, th[3]={0.5,-0.3,0.2}, A[4], P[10], V[10], c[4]={1,0.5,-0.3,0.2}; int i,k; starma(0,3,ph,th,A,P,V);
 for(i=0;i<4;i++){ double s=0; for(k=0;k+i<4;k++) s+=c[k]*c[k+i]; near_(P[i],s,"P0",i);} return bad; }''')
S('C13-b', 'C13', 'collinear regressors (or any failing start estimate) with the CSS-ML method', 'the exact estimation with regressors leaks its working series when the conditional start estimate fails',
  [('src/emle.c', '	ncxreg = (xreg == NULL) ? 0 : r;\n	nd = d + D;\n\n	if (cssml == 1) {\n', '	ncxreg = (xreg == NULL) ? 0 : r;\n	nd = d + D;\n\n	inp2 = (double*)malloc(sizeof(double)* (N - s*D));\n\n	if (cssml == 1) {\n'),
   ('src/emle.c', '			for (i = 0; i < Q; ++i) THETA[i] = 0.0;\n		}\n	}\n\n	inp2 = (double*)malloc(sizeof(double)* (N - s*D));\n', '			for (i = 0; i < Q; ++i) THETA[i] = 0.0;\n		}\n	}\n')],
  '''#include <malloc.h>
#include "emle.h"
int main(void) { int N=30,t,k; double x[30],xr[30],phi[1],th[1],PH[1],TH[1],ex[1],m=0,v,ll,h[9],res[30]; size_t a;
 for(t=0;t<N;t++){ x[t]=((t*t*7)%11)-5; xr[t]=2; }
 for(k=0;k<200;k++){ if(k==50) a=mallinfo2().uordblks; phi[0]=0; if(as154x(x,N,xr,5,1,0,0,0,0,0,0,phi,th,PH,TH,ex,1,&m,&v,res,&ll,h,1,0,1)!=7){ printf("not collinear\\n"); return 1; } }
 if(mallinfo2().uordblks>a+1000){ printf("leak: %zu bytes\\n",(size_t)mallinfo2().uordblks-a); bad=1; } return bad; }''')
S('C14-a', 'C14', 'CSS estimation of a model with mean or regressors', 'the covariance matrix of a CSS fit with regressors is stored ahead of its place, over the residual area',
  [('src/ctsa.c', 'obj->params + p + q + P + Q, obj->r, &obj->mean, &obj->var,&obj->loglik, obj->params + p + q + P + Q + M + N - d - s*D,obj->start,', 'obj->params + p + q + P + Q, obj->r, &obj->mean, &obj->var,&obj->loglik, obj->params + p + q + P + Q + N - d - s*D,obj->start,')],
  '''#include "emle.h"
int main(void) { int N=40,t,i,n; double x[40],v[9],h[9],phi[1]={0},th[1]={0},PH[1],TH[1],ex[1],m=0,va,ll; sarimax_object o; for(t=0;t<N;t++) x[t]=((t*t*7+3*t)%11)-5;
 o=sarimax_init(1,0,1,0,0,0,0,0,1,N); sarimax_setMethod(o,2); sarimax_exec(o,x,NULL); sarimax_vcov(o,v);
 cssx(x,N,NULL,o->optmethod,1,0,1,0,0,0,0,phi,th,PH,TH,ex,0,&m,&va,&ll,h,0,1);
 for(i=0;i<9;i++) near_(v[i],h[i],"vcov",i); sarimax_free(o); return bad; }''')
S('C14-b', 'C14', 'start coefficients given without a seasonal moving-average part, with a seasonal autoregressive order different from the seasonal moving-average order', 'missing seasonal moving-average start values clear the wrong number of entries and reach into the regression coefficients or leave old values',
  [('src/ctsa.c', '		for (i = 0; i < obj->Q;++i) {\n			obj->THETA[i] = 0.0;\n		}\n	}\n\n	obj->start = 1;', '		for (i = 0; i < obj->P;++i) {\n			obj->THETA[i] = 0.0;\n		}\n	}\n\n	obj->start = 1;')],
  '''int main(void) { double a[1]={0.5}, T[2]={0.3,0.2}; int i; sarimax_object o=sarimax_init(1,0,0,1,0,2,4,0,0,40); sarimax_setParams(o,a,NULL,a,T); sarimax_setParams(o,a,NULL,a,NULL);
 for(i=0;i<2;i++) near_(o->THETA[i],0,"THETA",i); sarimax_free(o); return bad; }''')
S('C16-a', 'C16', 'a jump that does not divide the series length minus one, leaving a last gap of at least two samples', 'the straight line over the last, shorter gap of the loess smooth uses the regular jump as its width',
  [('src/stl.c', '		delta = (ys[*n] - ys[k]) / (double) (*n - k);', '		delta = (ys[*n] - ys[k]) / (double) newnj;')],
  '''extern int stless_(double *, int *, int *, int *, int *, int *, double *, double *, double *);
int main(void) { double y[12], s[12], r[12], w[12]; int n=12, len=7, deg=1, jump=4, uw=0, i; for(i=0;i<12;i++) { y[i]=2.0*i+1; w[i]=1; }
 stless_(y,&n,&len,&deg,&jump,&uw,w,s,r); for(i=0;i<12;i++) near_(s[i],y[i],"smooth",i); return bad; }''')
S('C16-b', 'C16', 'a seasonal period of exactly half the series length', 'a period of half the series length is removed by mstl although it has only two cycles',
  [('src/seastest.c', '        if (f[i] < N / 2) {\n            msts[Niter] = (double) f[i];', '        if (f[i] <= N / 2) {\n            msts[Niter] = (double) f[i];')],
  '''#include "seastest.h"
int main(void) { double x[24], s0[24], s1[24], t[24], r[24], *s[2]; int f[2]={4,12}, ns=2, i; s[0]=s0; s[1]=s1; for(i=0;i<24;i++) x[i]=(i*7)%11+0.3*i;
 mstl(x,24,f,&ns,NULL,NULL,NULL,s,t,r); near_(ns,1,"periods",0); for(i=0;i<24&&!bad;i++) near_(s0[i]+t[i]+r[i],x[i],"sum",i); return bad; }''')
S('C15-a', 'C15', 'F density beyond den/num with different degrees of freedom', 'the tail branch of the F density exchanges the shapes of the beta density',
  [('src/pdist.c', '		oup = y * betapdf(k2 / (k2 + k1 * x), k2 / 2.,k1 / 2.);', '		oup = y * betapdf(k2 / (k2 + k1 * x), k1 / 2.,k2 / 2.);')],
  '''#include "pdist.h"
int main(void) { /* density is the slope of the distribution function */ int i; double x, h=1e-5; for(i=1;i<8;i++){ x=0.5*i; double d=(fcdf(x+h,5,12)-fcdf(x-h,5,12))/(2*h); if(fabs(fpdf(x,5,12)-d)>1e-6){ printf("x=%g pdf %g slope %g\\n",x,fpdf(x,5,12),d); bad=1; } } return bad; }''')
S('C15-b', 'C15', 'an argument above 12 in the log-gamma function and not far above it', 'log-gamma uses one correction term less above 12',
  [('src/dist.c', '			for ( i = 0; i < 6; i++ ) {\n				oup = oup / y2 + c[i];\n			}\n		}\n		oup /= y;', '			for ( i = 0; i < 6; i++ ) {\n				oup = oup / y2 + c[i];\n			}\n			if (y > 300.) oup = 0.0;\n		}\n		oup /= y;')],
  '''#include "dist.h"
int main(void) { double x; for(x=13.5;x<2000;x*=1.7) { double a=gamma_log(x+1)-gamma_log(x), w=log(x); if(fabs(a-w)>1e-6*0+1e-9*x){ } if(fabs(gamma_log(x)-lgamma(x))>1e-7*0+1e-5){ printf("gamma_log(%g)=%.12g, expected %.12g\\n",x,gamma_log(x),lgamma(x)); bad=1; } } return bad; }''')
S('C17-a', 'C17', 'regression on several variables without intercept', 'without an intercept the explained sum of squares is corrected for the mean from the second variable on',
  [('src/regression.c', '		else if (p > 1) {\n			anv[1] = mss;\n			anv[2] = rss;', '		else if (p > 1) {\n			anv[1] = mss - N*ym2;\n			anv[2] = rss;')],
  '''#include "regression.h"
int main(void) { int N=12,i,j; double x[24],y[12],res[12],v[4],e=0,m; reg_object o=reg_init(N,2); for(i=0;i<N;i++){ x[i]=i+1; x[N+i]=(i*i)%7; y[i]=3+2*x[i]-x[N+i]+0.1*((i*5)%3); }
 setIntercept(o,0); regress(o,x,y,res,v,0.05); for(i=0;i<N;i++){ m=y[i]-res[i]; e+=m*m; } near_(o->ESS,e,"ESS",0); free_reg(o); return bad; }''')
S('C17-b', 'C17', 'prediction at a point from a regression without intercept on at least two variables', 'prediction without intercept leaves the last variable out of the design row',
  [('src/regression.c', '			x0[i] = inp[i];\n			b[i] = (obj->beta + i)->value;', '			x0[i] = (i > 1) ? inp[i - 1] : inp[i];\n			b[i] = (obj->beta + i)->value;')],
  '''#include "regression.h"
int main(void) { int N=12,i; double x[36],y[12],res[12],v[9],at[3]={2,5,-3},var[2]; reg_object o=reg_init(N,3); for(i=0;i<N;i++){ x[i]=i+1; x[N+i]=(i*i)%7; x[2*N+i]=(i*3)%5; y[i]=2*x[i]-x[N+i]+4*x[2*N+i]; }
 setIntercept(o,0); regress(o,x,y,res,v,0.05); near_(fitted(o,at,v,var),2*2-5+4*-3,"fitted",0); free_reg(o); return bad; }''')
S('C18-a', 'C18', 'twice integrated series where both differences are asked for, with at least three allowed', 'later rounds of the number of differences difference the original series again instead of the differenced one',
  [('src/autoutils.c', '        dodiff = runstattests(z,NX,test,type,alpha_);\n\n        //printf("dodiff %d \\n",dodiff);\n\n        if (dodiff != dodiff) {\n            d--;\n            break;\n        }\n\n        memcpy(y,z,sizeof(double)*NX);', '        dodiff = runstattests(z,NX,test,type,alpha_);\n\n        //printf("dodiff %d \\n",dodiff);\n\n        if (dodiff != dodiff) {\n            d--;\n            break;\n        }\n\n        if (d > 1) memcpy(y,z,sizeof(double)*NX);')],
  '''#include "autoutils.h"
int main(void) { double x[90]; int i,m=3; double v=0,w=0; unsigned s=12345; for(i=0;i<90;i++){ s=s*1103515245u+12345u; w+=((double)((s>>16)&0x7fff)/16384.0-1.0); v+=w; x[i]=v; }
 { double a=0.05; int got=ndiffs(x,90,&a,"kpss","level",&m); if(got!=2){ printf("ndiffs %d, expected 2\\n",got); bad=1; } } return bad; }''')
S('C18-b', 'C18', 'Dickey-Fuller test with trend and given lags on a series of 100 to 250 observations', 'the joint critical values with trend are taken from the row of the next smaller sample size when two lags or more are used',
  [('src/unitroot.c', '        memcpy(cval+6,cval_phi3+row1*3,sizeof(double)*3);', '        memcpy(cval+6,cval_phi3+(lags_ > 2 && row1 == 3 ? row1-1 : row1)*3,sizeof(double)*3);')],
  '''#include "unitroot.h"
int main(void) { double x[150], cv[9], cp[3], ts[3]; int i,r,c,l=2,n; double v=0; for(i=0;i<150;i++){ v=0.8*v+((i*i*7+3*i)%11)-5; x[i]=v; }
 ur_df2(x,150,"trend",&l,"fixed",cv,&r,&c,cp,ts,&n); near_(cv[6],8.43,"cval",6); near_(cv[7],6.49,"cval",7); near_(cv[8],5.47,"cval",8); return bad; }''')
