From 7b94dc6a3f0d1a5c60725a01c0b159d06cf0ac8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:48 +0000
Subject: [PATCH 01/40] fix: deld/delds return the coefficient 1 for order zero
 (C[0] was never written)

---
 src/talg.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/talg.c b/src/talg.c
index 7db9a90..899c03e 100644
--- a/src/talg.c
+++ b/src/talg.c
@@ -116,6 +116,7 @@ void deld(int d, double* C) {
 	vec[0] = 1.;
 	vec[1] = -1.;
 	oup[0] = 1.;
+	C[0] = 1.;
 	// oup has length (d+1)
 	
 	for(i = 0; i < d; ++i) {
@@ -153,6 +154,7 @@ void delds(int D, int s, double *C) {
 	vec[0] = 1.0;
 	vec[s] = -1.0;
 	oup[0] = 1.0;
+	C[0] = 1.0;
 	
 	for(i = 0; i < D; ++i) {
 		poly(oup,vec,C,i*s+1,s+1);
-- 
2.43.0


From 709b6467b8b0e0ab458c4bdb2e808f5a62e98012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:59 +0000
Subject: [PATCH 02/40] fix: mase no longer leaks an unused buffer

---
 src/errors.c | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/errors.c b/src/errors.c
index f3bd2e8..ea5ea9e 100644
--- a/src/errors.c
+++ b/src/errors.c
@@ -118,13 +118,10 @@ double mpe(double *predicted, double *actual, int N) {
 
 double mase(double *predicted, double *actual, int N, double *tseries, int length) {
     double err,temp,den;
-    double *dif;
     int i;
 
     // tseries : Only training values are included
 
-    dif = (double*)malloc(sizeof(double)* (N-1));
-
     temp = 0.0;
 
     for(i = 1; i < length;++i) {
-- 
2.43.0


From b6f1d4ea2cc54f43260aa0448101df7966616414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:59 +0000
Subject: [PATCH 03/40] fix: arma_autocovar read past the end of its
 moving-average buffer when p > q

---
 src/talg.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/talg.c b/src/talg.c
index 899c03e..fbfb3dd 100644
--- a/src/talg.c
+++ b/src/talg.c
@@ -384,8 +384,8 @@ void arma_autocovar(double *phi,double *theta,int p,int q,double var,double* aco
 		th[i+1] = theta[i];
 	}
 	
-	if (p >= q+1) {
-		m = p;
+	if (p1 >= q+1) {
+		m = p1;
 	} else {
 		m = q + 1;
 	}
-- 
2.43.0


From d727c41c5362dde8364993d187570019b316b5de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:19 +0000
Subject: [PATCH 04/40] fix: arma_autocovar builds the full Yule-Walker matrix
 for p >= 3

---
 src/talg.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/talg.c b/src/talg.c
index fbfb3dd..75e6919 100644
--- a/src/talg.c
+++ b/src/talg.c
@@ -394,10 +394,11 @@ void arma_autocovar(double *phi,double *theta,int p,int q,double var,double* aco
 	for(i = 0; i < p1;++i) {
 		for(j=0; j < p1;++j) {
 			A[i*p1+j] = 0.;
-			if (i == j && i != 0) {
-				A[i*p1+j] = 1.;
-			}
+		}
+	}
 
+	for(i = 0; i < p1;++i) {
+		for(j=0; j < p1;++j) {
 			t = i - j;
 			if (t < 0) {
 				t = -t;
-- 
2.43.0


From 58488050119e29bb251e969d9efc52179e7b9dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:35 +0000
Subject: [PATCH 05/40] fix: checkConstant compares the first pair of samples
 too

---
 src/boxcox.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/boxcox.c b/src/boxcox.c
index ff8f106..75b45c8 100644
--- a/src/boxcox.c
+++ b/src/boxcox.c
@@ -8,7 +8,7 @@ int checkConstant(double *x, int N) {
 
     /// heap buffer overflow fix, since accessing x[i+1] need to 
     /// stop loop at -1 index from end of array as dictated by length defined by N
-    for(i = 1; i < N - 1;++i) {
+    for(i = 0; i < N - 1;++i) {
         diff = x[i+1] - x[i];
         if (fabs(diff) > 0) {
             return cc;
-- 
2.43.0


From c723069bc58d605ed125e844a1bab9473330b689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:35 +0000
Subject: [PATCH 06/40] fix: boxcox tests for negative values before using the
 result (cn was uninitialised)

---
 src/boxcox.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/boxcox.c b/src/boxcox.c
index 75b45c8..dbe3c10 100644
--- a/src/boxcox.c
+++ b/src/boxcox.c
@@ -111,6 +111,7 @@ double boxcox(double *x, int N,double *lambda,double *y) {
     }
 
     // Check for negative values
+    cn = checkNegative(x,N);
 
     if (cn == 1) {
         printf("Input vector cannot have negative values. Exiting. \n");
-- 
2.43.0


From c13f85eecc4dc795d0a9f1bd3ce86f9ef8aaed29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:22 +0000
Subject: [PATCH 07/40] fix: partial pivoting compares magnitudes, not a signed
 pivot candidate

---
 src/matrix.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/matrix.c b/src/matrix.c
index 09e3ae4..abb88e1 100644
--- a/src/matrix.c
+++ b/src/matrix.c
@@ -900,7 +900,7 @@ static int pludecomp(double *A,int N,int *ipiv) {
 		mind = k;
 		for (j=k+1; j < N;++j) {
 			if (mval < fabs(A[j*N + k])) {
-				mval = A[j*N + k];
+				mval = fabs(A[j*N + k]);
 				mind = j;
 			}
 		}
@@ -953,7 +953,7 @@ int rludecomp(double *A, int M, int N, int *ipiv) {
 			mind = k;
 			for (j = k + 1; j < M; ++j) {
 				if (mval < fabs(A[j*N + k])) {
-					mval = A[j*N + k];
+					mval = fabs(A[j*N + k]);
 					mind = j;
 				}
 			}
@@ -991,7 +991,7 @@ int rludecomp(double *A, int M, int N, int *ipiv) {
 			mind = k;
 			for (j = k + 1; j < M; ++j) {
 				if (mval < fabs(A[j*N + k])) {
-					mval = A[j*N + k];
+					mval = fabs(A[j*N + k]);
 					mind = j;
 				}
 			}
-- 
2.43.0


From 0808259cc76eb13c4cf64388a752ca0faa4df0fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:39 +0000
Subject: [PATCH 08/40] fix: pass the full series length to burgalg (the last
 sample was dropped)

---
 src/ctsa.c    | 8 ++++----
 src/initest.c | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/ctsa.c b/src/ctsa.c
index adb666d..226af0b 100644
--- a/src/ctsa.c
+++ b/src/ctsa.c
@@ -2187,7 +2187,7 @@ void ar_exec(ar_object obj, double *inp) {
 	}
 	else if (obj->method == 1) {
 		obj->mean = mean(inp, N);
-		burgalg(inp, N - 1, p, obj->params, &obj->var);
+		burgalg(inp, N, p, obj->params, &obj->var);
 	}
 
 	obj->order = obj->p;
@@ -2338,7 +2338,7 @@ void ar(double *inp, int N, int p,int method,double *phi,double *var) {
 		ywalg2(inp, N, p, phi,var);
 	}
 	else if (method == 1) {
-		burgalg(inp, N - 1, p, phi, var);
+		burgalg(inp, N, p, phi, var);
 	}
 	else if (method == 2) {
 		resid = (double*)malloc(sizeof(double)* N);
@@ -4100,7 +4100,7 @@ int ar_estimate(double *x, int N, int method) {
 			ywalg2(inp, N, i + 1, phi, &var);
 		}
 		else if (method == 1) {
-			burgalg(inp, N-1, i + 1, phi, &var);
+			burgalg(inp, N, i + 1, phi, &var);
 		}
 		else if (method == 2) {
 			as154(inp, N, 7, i + 1, 0, 0, phi, NULL, &wmean, &var, resid, &loglik, hess,cssml);
@@ -4390,7 +4390,7 @@ void yw(double *x, int N, int p, double *phi, double *var) {
 }
 
 void burg(double *x, int N, int p, double *phi, double *var) {
-	burgalg(x, N-1, p, phi, var);
+	burgalg(x, N, p, phi, var);
 }
 
 void hr(double *x, int N, int p, int q, double *phi, double *theta, double *var) {
diff --git a/src/initest.c b/src/initest.c
index 068523b..27370bd 100644
--- a/src/initest.c
+++ b/src/initest.c
@@ -437,7 +437,7 @@ void pacf_burg(double* vec, int N, double* par, int M) {
 
 	temp = (double*)malloc(sizeof(double)* M);
 	for (i = 0; i < M; ++i) {
-		burgalg(vec, N-1, i + 1, temp, &var);
+		burgalg(vec, N, i + 1, temp, &var);
 		par[i] = temp[i];
 	}
 	free(temp);
-- 
2.43.0


From 7fc0c605d04f67d805f9c6c9e51f4983cb6de09b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:32 +0000
Subject: [PATCH 09/40] fix: predict functions read only the N-d-D*s residuals
 a model holds (heap over-read)

---
 src/ctsa.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/ctsa.c b/src/ctsa.c
index 226af0b..8fd378e 100644
--- a/src/ctsa.c
+++ b/src/ctsa.c
@@ -2232,7 +2232,7 @@ void arima_predict(arima_object obj,double *inp, int L,double *xpred,double *ams
 		if (d == 0) {
 			W[i] -= wmean;
 		}
-		resid[i] = obj->res[i];
+		resid[i] = (i < N - d) ? obj->res[i] : 0.0;
 	}
 	for (i = 0; i < ir; ++i) {
 		phi[i] = theta[i] = 0.0;
@@ -2855,7 +2855,7 @@ void sarima_predict(sarima_object obj, double *inp, int L, double *xpred, double
 		if (d == 0 && D == 0) {
 			W[i] -= wmean;
 		}
-		resid[i] = obj->res[i];
+		resid[i] = (i < N - d - D*s) ? obj->res[i] : 0.0;
 	}
 	for (i = 0; i < ir; ++i) {
 		phi[i] = theta[i] = 0.0;
@@ -2962,7 +2962,7 @@ void sarimax_predict(sarimax_object obj, double *inp, double *xreg, int L,double
 				W[i] -= obj->exog[j] * xreg[j*N+i];
 			}
 		}
-		resid[i] = obj->res[i];
+		resid[i] = (i < N - d - D*s) ? obj->res[i] : 0.0;
 	}
 	for (i = 0; i < ir; ++i) {
 		phi[i] = theta[i] = 0.0;
@@ -3080,7 +3080,7 @@ void auto_arima_predict(auto_arima_object obj, double *inp, double *xreg, int L,
 				W[i] -= obj->exog[j] * xreg[(j-diter)*N+i];
 			}
 		}
-		resid[i] = obj->res[i];
+		resid[i] = (i < N - d - D*s) ? obj->res[i] : 0.0;
 	}
 	for (i = 0; i < ir; ++i) {
 		phi[i] = theta[i] = 0.0;
@@ -3203,7 +3203,7 @@ void sarimax_wrapper_predict(sarimax_wrapper_object obj, double *inp, double *xr
 				W[i] -= obj->sarimax->exog[j] * xreg[(j-diter)*N+i];
 			}
 		}
-		resid[i] = obj->sarimax->res[i];
+		resid[i] = (i < N - d - D*s) ? obj->sarimax->res[i] : 0.0;
 	}
 	for (i = 0; i < ir; ++i) {
 		phi[i] = theta[i] = 0.0;
-- 
2.43.0


From d46360806929c436a75428118f6afb81299ef734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:32 +0000
Subject: [PATCH 10/40] fix: forkal forecasts models without ARMA terms
 (outputs were left unwritten)

---
 src/emle.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/emle.c b/src/emle.c
index cf21961..5aa4ff8 100644
--- a/src/emle.c
+++ b/src/emle.c
@@ -837,9 +837,6 @@ C*/
 	if (iq < 0) {
 		ifault = ifault + 2;
 	}
-	if (ip*ip + iq*iq == 0) {
-		ifault = 4;
-	}
 	if (id < 0) {
 		ifault = 8;
 	}
@@ -895,6 +892,9 @@ C*/
 	//Find initial likelihood conditions.
 
 	if (ir == 1) {
+		if (ip == 0) {
+			phi[0] = 0.0;
+		}
 		*P = 1.0 / (1.0 - phi[0] * phi[0]);
 	}
 	else {
-- 
2.43.0


From cffc5197e60d6f0c53226c43f06c0b2a12cef932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:01 +0000
Subject: [PATCH 11/40] fix: auto_arima_predict keeps the last regressor when
 the model has a drift term

---
 src/ctsa.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ctsa.c b/src/ctsa.c
index 8fd378e..35e87df 100644
--- a/src/ctsa.c
+++ b/src/ctsa.c
@@ -3076,7 +3076,7 @@ void auto_arima_predict(auto_arima_object obj, double *inp, double *xreg, int L,
 			W[i] -= obj->exog[0]*(i+1);
 		}
 		if (obj->r > 0) {
-			for(j = diter; j < obj->r;++j) {
+			for(j = diter; j < obj->r + diter;++j) {
 				W[i] -= obj->exog[j] * xreg[(j-diter)*N+i];
 			}
 		}
@@ -3115,7 +3115,7 @@ void auto_arima_predict(auto_arima_object obj, double *inp, double *xreg, int L,
 		if (obj->idrift == 1) {
 			xpred[i] += obj->exog[0]*(i+1+N);
 		}
-		for(j = diter; j < obj->r;++j) {
+		for(j = diter; j < obj->r + diter;++j) {
 			xpred[i] += obj->exog[j] * newxreg[(j - diter)*L+i];
 		}
 	}
-- 
2.43.0


From e1fd494ab31b04984ab5ec1d00cda90540ee591c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:21 +0000
Subject: [PATCH 12/40] fix: the drift flag of automatically selected models is
 set (it was uninitialised)

---
 src/ctsa.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ctsa.c b/src/ctsa.c
index 35e87df..9a77d31 100644
--- a/src/ctsa.c
+++ b/src/ctsa.c
@@ -607,10 +607,10 @@ sarimax_wrapper_object sarimax_wrapper(sarimax_wrapper_object model,double *y, i
 		//printf("drift %d \n",drift);
 
 		rr = r;
+		obj->idrift = drift;
 
 		
 		if (drift == 1) {
-			obj->idrift = 1;
 			rr++;
 			xreg2 = (double*)malloc(sizeof(double)*N*rr);
 			for(i = 0; i < N;++i) {
@@ -670,6 +670,7 @@ myarima_object myarima(double *x, int N, int *order, int *seasonal, int constant
 	fit = (myarima_object) malloc (sizeof(struct myarima_set));
 	
 	fit->ic = fit->aic = fit->bic = fit->aicc = DBL_MAX;
+	fit->idrift = 0;
 
 	tol = 1e-08;
 
@@ -722,6 +723,7 @@ myarima_object myarima(double *x, int N, int *order, int *seasonal, int constant
 	rr = r;
 
 	if (diffs == 1 && constant == 1) {
+		fit->idrift = 1;
 		imean = 1;
 		rr++;
 		xreg2 = (double*)malloc(sizeof(double)*N*rr);
-- 
2.43.0


From fb3de932ad866db52aa5938f7a6796ea4c59efe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:18 +0000
Subject: [PATCH 13/40] fix: alik_init and alik_css_init reject q=100, which
 overflows theta

---
 src/emle.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/emle.c b/src/emle.c
index 5aa4ff8..60302dc 100644
--- a/src/emle.c
+++ b/src/emle.c
@@ -77,7 +77,7 @@ static int checkroots_cerr(double *phi, int *p, double *theta, int *q, double *P
 alik_css_object alik_css_init(int p, int d, int q, int N) {
 	alik_css_object obj = NULL;
 	int i, t;
-	if (p > 100 || q > 100) {
+	if (p > 100 || q >= 100) {
 		printf("\n p and q should be less than 100. \n");
 		printf("Use sarima_init if either p > 100 or q > 100 \n");
 		exit(1);
@@ -121,7 +121,7 @@ alik_css_object alik_css_init(int p, int d, int q, int N) {
 alik_object alik_init(int p, int d, int q, int N) {
 	alik_object obj = NULL;
 	int i,t;
-	if (p > 100 || q > 100) {
+	if (p > 100 || q >= 100) {
 		printf("\n p and q should be less than 100. \n");
 		printf("Use sarima_init if either p > 100 or q > 100 \n");
 		exit(1);
-- 
2.43.0


From a40abd5232180b4fb3c621cd588885fbce60f69e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:05 +0000
Subject: [PATCH 14/40] fix: exact likelihood of models without ARMA terms used
 uninitialised state (fas154, fas154_seas)

---
 src/emle.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/emle.c b/src/emle.c
index 60302dc..6aa8c60 100644
--- a/src/emle.c
+++ b/src/emle.c
@@ -1418,7 +1418,7 @@ double fas154(double *b,int pq,void *params) {
 
 	iupd = 0;
 
-	if (ip == 1 && iq == 0) {
+	if ((ip == 1 && iq == 0) || (ip == 0 && iq == 0)) {
 		*V = 1.0;
 		*A = 0.0;
 		*P = 1.0 / (1.0 - phi[0] * phi[0]);
@@ -2658,7 +2658,7 @@ double fas154_seas(double *b, int pq, void *params) {
 	iupd = 0;
 	//mdisplay(b, 1, pq);
 
-	if (ip == 1 && iq == 0) {
+	if ((ip == 1 && iq == 0) || (ip == 0 && iq == 0)) {
 		*V = 1.0;
 		*A = 0.0;
 		*P = 1.0 / (1.0 - phi[0] * phi[0]);
-- 
2.43.0


From d06fef363e879fa57c39f230bdc9b88b08395e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:08 +0000
Subject: [PATCH 15/40] fix: exact likelihood of AR(1) models discarded the
 stationary variance of the first observation

---
 src/emle.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/emle.c b/src/emle.c
index 6aa8c60..9bf8304 100644
--- a/src/emle.c
+++ b/src/emle.c
@@ -1419,6 +1419,7 @@ double fas154(double *b,int pq,void *params) {
 	iupd = 0;
 
 	if ((ip == 1 && iq == 0) || (ip == 0 && iq == 0)) {
+		iupd = 1;
 		*V = 1.0;
 		*A = 0.0;
 		*P = 1.0 / (1.0 - phi[0] * phi[0]);
@@ -2659,6 +2660,7 @@ double fas154_seas(double *b, int pq, void *params) {
 	//mdisplay(b, 1, pq);
 
 	if ((ip == 1 && iq == 0) || (ip == 0 && iq == 0)) {
+		iupd = 1;
 		*V = 1.0;
 		*A = 0.0;
 		*P = 1.0 / (1.0 - phi[0] * phi[0]);
@@ -2985,6 +2987,7 @@ double fas154x_seas(double *b, int pq, void *params) {
 	iupd = 0;
 
 	if ((ip == 1 && iq == 0) || (ip == 0 && iq == 0)) {
+		iupd = 1;
 		*V = 1.0;
 		*A = 0.0;
 		*P = 1.0 / (1.0 - phi[0] * phi[0]);
-- 
2.43.0


From 7d562bafe9c0cefcdaf4e392ae8acf6c11cd4377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:45 +0000
Subject: [PATCH 16/40] fix: CSS estimation subtracted the differencing order
 twice (last residuals unset, Hessian scale)

---
 src/emle.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/emle.c b/src/emle.c
index 9bf8304..020e641 100644
--- a/src/emle.c
+++ b/src/emle.c
@@ -1319,7 +1319,7 @@ int css(double *inp, int N, int optmethod, int p, int d, int q, double *phi, dou
 	mtranspose(hess, pq, pq, thess);
 
 	for (i = 0; i < pq*pq; ++i) {
-		thess[i] = (N - d) * 0.5 * (hess[i] + thess[i]);
+		thess[i] = N * 0.5 * (hess[i] + thess[i]);
 	}
 
 
@@ -1351,7 +1351,7 @@ int css(double *inp, int N, int optmethod, int p, int d, int q, double *phi, dou
 	}
 	*/
 	*var = (obj->ssq) / (double)N;
-	for (i = 0; i < N - d; ++i) {
+	for (i = 0; i < N; ++i) {
 		resid[i] = obj->x[N+i];
 	}
 	*loglik = obj->loglik;
@@ -2140,7 +2140,7 @@ int css_seas(double *inp, int N, int optmethod, int p, int d, int q, int s, int
 	mtranspose(hess, pq, pq, thess);
 
 	for (i = 0; i < pq*pq; ++i) {
-		thess[i] = (N - d - s*D) * 0.5 * (hess[i] + thess[i]);
+		thess[i] = N * 0.5 * (hess[i] + thess[i]);
 	}
 
 
@@ -2525,7 +2525,7 @@ int cssx(double *inp, int N, double *xreg, int optmethod, int p, int d, int q, i
 	mtranspose(hess, pq, pq, thess);
 
 	for (i = 0; i < pq*pq; ++i) {
-		thess[i] = (N - d - s*D) * 0.5 * (hess[i] + thess[i]);
+		thess[i] = N * 0.5 * (hess[i] + thess[i]);
 	}
 
 
@@ -3308,7 +3308,7 @@ void as197(double *inp, int N, int optmethod, int p, int d, int q, double *phi,
 	else {
 		*wmean = 0.0;
 	}
-	for (i = 0; i < N - d; ++i) {
+	for (i = 0; i < N; ++i) {
 		resid[i] = obj->x[N + i];
 	}
 	*var = (obj->ssq) / (double)N;
-- 
2.43.0


From 042073b4bfebed31ca34c25feea7a1310f9ee6bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:48 +0000
Subject: [PATCH 17/40] fix: cssx cleared start coefficients beyond the end of
 their arrays

---
 src/emle.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/emle.c b/src/emle.c
index 020e641..467cc99 100644
--- a/src/emle.c
+++ b/src/emle.c
@@ -2329,13 +2329,13 @@ int cssx(double *inp, int N, double *xreg, int optmethod, int p, int d, int q, i
 			phi[i] = 0.0;
 		}
 		for (i = 0; i < q; ++i) {
-			theta[p + i] = 0.0;
+			theta[i] = 0.0;
 		}
 		for (i = 0; i < P; ++i) {
-			PHI[p + q + i] = 0.0;
+			PHI[i] = 0.0;
 		}
 		for (i = 0; i < Q; ++i) {
-			THETA[p + q + P + i] = 0.0;
+			THETA[i] = 0.0;
 		}
 	}
 
-- 
2.43.0


From ec23a6599a9e7d8243da27a5cdefa5ac2c89d8ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:17 +0000
Subject: [PATCH 18/40] fix: as154 and as154_seas leaked their working series
 when the start estimate is not stationary

---
 src/emle.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/emle.c b/src/emle.c
index 467cc99..cf6a65f 100644
--- a/src/emle.c
+++ b/src/emle.c
@@ -1474,7 +1474,10 @@ int as154(double *inp, int N, int optmethod, int p, int d, int q, double *phi, d
 		Q = 0;
 
 		ERR = checkroots_cerr(phi, &p, theta, &q, NULL, &P, NULL, &Q);
-		if (ERR == 10 || ERR == 12) return ERR;
+		if (ERR == 10 || ERR == 12) {
+			free(x);
+			return ERR;
+		}
 
 		coeff = *wmean;
 	}
@@ -2712,7 +2715,10 @@ int as154_seas(double *inp, int N, int optmethod, int p, int d, int q, int s, in
 		css_seas(inp, N, optmethod, p, d, q, s, P, D, Q, phi, theta, PHI, THETA, wmean, var, loglik, hess);
 
 		ERR = checkroots_cerr(phi, &p, theta, &q, PHI, &P, THETA, &Q);
-		if (ERR == 10 || ERR == 12) return ERR;
+		if (ERR == 10 || ERR == 12) {
+			free(inp2);
+			return ERR;
+		}
 
 		coeff = *wmean;
 	}
-- 
2.43.0


From d56ae31f61769fe34404006a6855efa82be26988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:15 +0000
Subject: [PATCH 19/40] fix: public header lacked the cssml member of arima_set
 and sarima_set (ncoeff read the wrong member)

---
 header/ctsa.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/header/ctsa.h b/header/ctsa.h
index 58fa9f2..e3b4203 100644
--- a/header/ctsa.h
+++ b/header/ctsa.h
@@ -130,6 +130,7 @@ struct arima_set{
 	int d;// Number of times the series is to be differenced
 	int q;//size of theta
 	int M; // M = 0 if mean is 0.0 else M = 1
+	int cssml;// Uses CSS before MLE if 1 else uses MLE only if cssml is 0
 	int ncoeff;// Total Number of Coefficients to be estimated
 	double *phi;
 	double *theta;
@@ -161,6 +162,7 @@ struct sarima_set{
 	int D;// The number of times the seasonal series is to be differenced
 	int Q;//size of Seasonal Theta
 	int M; // M = 0 if mean is 0.0 else M = 1
+	int cssml;// Uses CSS before MLE if 1 else uses MLE only if cssml is 0
 	int ncoeff;// Total Number of Coefficients to be estimated
 	double *phi;
 	double *theta;
-- 
2.43.0


From 69b309c0761d64d13a1c2423691bc47a99d8b738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:40 +0000
Subject: [PATCH 20/40] fix: auto_arima1 copied and differenced only part of
 the regressors before testing them

---
 src/ctsa.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ctsa.c b/src/ctsa.c
index 9a77d31..b27c1a9 100644
--- a/src/ctsa.c
+++ b/src/ctsa.c
@@ -1245,9 +1245,11 @@ aa_ret_object auto_arima1(double *y, int N, int *ordermax, int *seasonalmax,int
 
 	if (xreg) {
 		if (D > 0) {
-			diffs(xreg,N,D,s,diffxreg);
+			for(i = 0; i < r;++i) {
+				diffs(xreg+i*N,N,D,s,diffxreg+i*Nd);
+			}
 		} else {
-			memcpy(diffxreg,xreg,N*r);
+			memcpy(diffxreg,xreg,sizeof(double)*N*r);
 		}
 	}
 
-- 
2.43.0


From c56424cb3865705e2151e41c57e462af900c0571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:49 +0000
Subject: [PATCH 21/40] fix: auto_arima ignored the seasonal and stationary
 settings

---
 src/ctsa.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/ctsa.c b/src/ctsa.c
index b27c1a9..d932a4a 100644
--- a/src/ctsa.c
+++ b/src/ctsa.c
@@ -1108,6 +1108,8 @@ aa_ret_object auto_arima1(double *y, int N, int *ordermax, int *seasonalmax,int
 
 	if (seasonal == NULL) {
 		iseasonal = 1;
+	} else {
+		iseasonal = *seasonal;
 	}
 
 	if (stepwise == NULL) {
@@ -1147,7 +1149,7 @@ aa_ret_object auto_arima1(double *y, int N, int *ordermax, int *seasonalmax,int
 
 	//mdisplay(x,1,N);
 
-	if (s <= 1) {
+	if (s <= 1 || iseasonal == 0) {
 		m = 1;
 	} else {
 		m = s;
@@ -1255,6 +1257,10 @@ aa_ret_object auto_arima1(double *y, int N, int *ordermax, int *seasonalmax,int
 
 	d = dd == NULL ? -1 : *dd;
 
+	if (istationary) {
+		d = 0;
+	}
+
 	if (d == -1) {
 		d = ndiffs(dx,Nd,test_alpha,test,type,&d_max);
 
-- 
2.43.0


From f33b857a9aacf58fc055bd5894e687f981417274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:42 +0000
Subject: [PATCH 22/40] fix: psort_ kept a swapped value in an int, truncating
 the sorted data

---
 src/stl.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stl.c b/src/stl.c
index af4d106..a29349d 100644
--- a/src/stl.c
+++ b/src/stl.c
@@ -712,7 +712,7 @@ int psort_(double *a, int n, int *ind, int ni)
     int i__, j, k, l, m, p;
     double t;
     int ij, il[16], jl, iu[16], ju;
-    int tt;
+    double tt;
     int indl[16], indu[16];
 
 
-- 
2.43.0


From d48bf1d6251882047fa0358ae302f29d4baa2965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:42 +0000
Subject: [PATCH 23/40] fix: stl ignored a given trend window and used an
 uninitialised one

---
 src/seastest.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/seastest.c b/src/seastest.c
index 44153a0..a794a0b 100644
--- a/src/seastest.c
+++ b/src/seastest.c
@@ -220,6 +220,8 @@ void stl(double *x,int N,int f, const char *s_window_type,int *s_window, int *s_
 
     if (t_window == NULL) {
         t_window_ = nextOdd(ceil( 1.5 * f / (1.0 - 1.5 / (double) s_window_)));
+    } else {
+        t_window_ = *t_window;
     }
 
     s_degree_ = (s_degree == NULL) ? 0 : *s_degree;
-- 
2.43.0


From e515fe303cfcd27faf9a646927f54e72b2ca2f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:42 +0000
Subject: [PATCH 24/40] fix: stl tested the wrong argument for the number of
 outer iterations

---
 src/seastest.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/seastest.c b/src/seastest.c
index a794a0b..cde771f 100644
--- a/src/seastest.c
+++ b/src/seastest.c
@@ -236,7 +236,7 @@ void stl(double *x,int N,int f, const char *s_window_type,int *s_window, int *s_
 
     robust_ = (robust == NULL) ? 0 : *robust;
     inner_ = (inner == NULL) ? (robust_ ? 1 : 2) : *inner;
-    outer_ = (inner == NULL) ? (robust_ ? 15 : 0) : *outer;
+    outer_ = (outer == NULL) ? (robust_ ? 15 : 0) : *outer;
 
     
     s_degree_ = degCheck(s_degree_);
-- 
2.43.0


From 582f577e93f4378403751d9df21c747244dcf6db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:42 +0000
Subject: [PATCH 25/40] fix: the robustness weights asked the partial sort for
 the two medians in decreasing order

---
 src/stl.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/stl.c b/src/stl.c
index a29349d..ad09334 100644
--- a/src/stl.c
+++ b/src/stl.c
@@ -469,8 +469,8 @@ int stlrwt_(double *y, int *n, double *fit, double *rw)
 	rw[i__] = (d__1 = y[i__] - fit[i__], fabs(d__1));
 /* L7: */
     }
-    mid[0] = *n / 2 + 1;
-    mid[1] = *n - mid[0] + 1;
+    mid[1] = *n / 2 + 1;
+    mid[0] = *n - mid[1] + 1;   /* psort_ wants increasing indices */
     psort_(&rw[1], *n, mid, c__2);
     cmad = (rw[mid[0]] + rw[mid[1]]) * 3.0;
 /*     = 6 * MAD */
-- 
2.43.0


From 771e61342d5e95b9a66295944b66e76ecde89662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:20 +0000
Subject: [PATCH 26/40] fix: the running-lines smoother read past the series
 when its span covers all of it

---
 src/talg.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/talg.c b/src/talg.c
index 75e6919..b03875c 100644
--- a/src/talg.c
+++ b/src/talg.c
@@ -1258,6 +1258,9 @@ static int smooth_(int *n, double *x, double *y, double *w, double *span, int *i
 	ibw = 2;
     }
     it = (ibw << 1) + 1;
+    if (it > *n) {
+	it = *n;
+    }
     i__1 = it;
     for (i__ = 1; i__ <= i__1; ++i__) {
 	j = i__;
-- 
2.43.0


From 930aa08414515b8b7b787f4168e3cd0bfd968a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:48 +0000
Subject: [PATCH 27/40] fix: tinv returned the magnitude of quantiles below the
 median, intervals were inverted above 1000 degrees of freedom

---
 src/pdist.c      | 2 +-
 src/regression.c | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pdist.c b/src/pdist.c
index 877eefb..a207793 100644
--- a/src/pdist.c
+++ b/src/pdist.c
@@ -183,7 +183,7 @@ double tinv(double p, int df) {
 		x = betainv(pmin,d2,0.5);
 		y = 1. - x;
 		
-		t = sqrt( (double) df * y / x);
+		t = sign * sqrt( (double) df * y / x);
 	}
 	
 	if ( p > 0. && p < 1. && df > 1000 ) {
diff --git a/src/regression.c b/src/regression.c
index c27b46a..e26a179 100644
--- a/src/regression.c
+++ b/src/regression.c
@@ -157,7 +157,7 @@ void linreg_clrm(double *x, double *y, int N, double* b,
 	a2 = alpha / 2.;
 	df = N - 2; // Number of parameters = 2
 
-	ta2 = tinv(a2, df);
+	ta2 = tinv(1. - a2, df);
 	intrvl = ta2 * seb1;
 
 	ci_lower[0] = b[0] - intrvl;
@@ -342,7 +342,7 @@ void linreg_multi(int p, double *xi, double *y, int N, double* b, double *sigma2
 	for (i = 0; i < p; ++i) {
 		seb[i] = sqrt(xxti[i*(p + 1)]);
 
-		ta2 = tinv(a2, df);
+		ta2 = tinv(1. - a2, df);
 		intrvl = ta2 * seb[i];
 
 		ci_lower[i] = b[i] - intrvl;
-- 
2.43.0


From 0a449e62736544b44f9b53e69fb29956dcf03824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:48 +0000
Subject: [PATCH 28/40] fix: tcdf of an infinite t value was one half

---
 src/pdist.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pdist.c b/src/pdist.c
index a207793..5d3d8ba 100644
--- a/src/pdist.c
+++ b/src/pdist.c
@@ -93,7 +93,7 @@ double tcdf(double t, int df) {
 		oup = 1. - oup;
 	}
 	
-	if ( x == 0.) {
+	if ( t == 0.) {
 		oup = 0.5;
 	}
 	
-- 
2.43.0


From af9fb96917cd00ecbc6f82a03136495500255752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:48 +0000
Subject: [PATCH 29/40] fix: the F test of a regression without intercept lost
 a degree of freedom

---
 src/regression.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/regression.c b/src/regression.c
index e26a179..c394321 100644
--- a/src/regression.c
+++ b/src/regression.c
@@ -428,7 +428,7 @@ void linreg_multi(int p, double *xi, double *y, int N, double* b, double *sigma2
 			anv[3] = (double)p;
 			anv[4] = (double)df;
 			anv[5] = (R2[0] / anv[3]) / ((1. - R2[0]) / anv[4]);
-			anv[6] = 1.0 - fcdf(anv[5], p - 1, df);
+			anv[6] = 1.0 - fcdf(anv[5], p, df);
 		}
 		else if (p == 0) {
 			anv[1] = mss;
-- 
2.43.0


From bbb87abe3e8026377dee4fed75d430ad0997abf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:48 +0000
Subject: [PATCH 30/40] fix: F statistic and p-value of an intercept-only
 regression were uninitialised

---
 src/regression.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/regression.c b/src/regression.c
index c394321..57f09d9 100644
--- a/src/regression.c
+++ b/src/regression.c
@@ -398,6 +398,8 @@ void linreg_multi(int p, double *xi, double *y, int N, double* b, double *sigma2
 			anv[0] = anv[1] + anv[2];
 			anv[3] = (double)p - dfi;
 			anv[4] = (double)df;
+			anv[5] = NAN;
+			anv[6] = NAN;
 		}
 		else if (p > 1) {
 			anv[1] = R2[0] * (*bt - N*ym2);
-- 
2.43.0


From 9d563a23faeff98fe8c3a9b9a74719959a02a62d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:48 +0000
Subject: [PATCH 31/40] fix: a regression explaining nothing ended the program
 when rounding made its F statistic negative

---
 src/regression.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/regression.c b/src/regression.c
index 57f09d9..e6610bc 100644
--- a/src/regression.c
+++ b/src/regression.c
@@ -186,7 +186,7 @@ void linreg_clrm(double *x, double *y, int N, double* b,
 	anv[4] = (double)df;
 	anv[5] = (anv[1] / anv[3]) / (anv[2] / anv[4]);
 	printf("%lf \n", var[0]);
-	anv[6] = 1.0 - fcdf(anv[5], 1, df);
+	anv[6] = 1.0 - fcdf(anv[5] < 0.0 ? 0.0 : anv[5], 1, df);
 
 	free(xi);
 	free(yi);
@@ -408,7 +408,7 @@ void linreg_multi(int p, double *xi, double *y, int N, double* b, double *sigma2
 			anv[3] = (double)p - dfi;
 			anv[4] = (double)df;
 			anv[5] = (R2[0] / anv[3]) / ((1. - R2[0]) / anv[4]);
-			anv[6] = 1.0 - fcdf(anv[5], p - 1, df);
+			anv[6] = 1.0 - fcdf(anv[5] < 0.0 ? 0.0 : anv[5], p - 1, df);
 		}
 	}
 	else {
@@ -421,7 +421,7 @@ void linreg_multi(int p, double *xi, double *y, int N, double* b, double *sigma2
 			anv[3] = (double)p;
 			anv[4] = (double)df;
 			anv[5] = (R2[0] / anv[3]) / ((1. - R2[0]) / anv[4]);
-			anv[6] = 1.0 - fcdf(anv[5], p, df);
+			anv[6] = 1.0 - fcdf(anv[5] < 0.0 ? 0.0 : anv[5], p, df);
 		}
 		else if (p > 1) {
 			anv[1] = mss;
@@ -430,7 +430,7 @@ void linreg_multi(int p, double *xi, double *y, int N, double* b, double *sigma2
 			anv[3] = (double)p;
 			anv[4] = (double)df;
 			anv[5] = (R2[0] / anv[3]) / ((1. - R2[0]) / anv[4]);
-			anv[6] = 1.0 - fcdf(anv[5], p, df);
+			anv[6] = 1.0 - fcdf(anv[5] < 0.0 ? 0.0 : anv[5], p, df);
 		}
 		else if (p == 0) {
 			anv[1] = mss;
-- 
2.43.0


From 76c694cbcbe9e1e0ac4c5a7085ff97eb871ebfe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:24 +0000
Subject: [PATCH 32/40] fix: lls_normal never released its transposed factor

---
 src/lls.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lls.c b/src/lls.c
index debe859..963ed00 100644
--- a/src/lls.c
+++ b/src/lls.c
@@ -30,6 +30,11 @@ int lls_normal(double *A,double *b,int M,int N,double *x) {
 
 	sc = chol(C,N);
 	if (sc == -1) {
+		free(AT);
+		free(d);
+		free(C);
+		free(y);
+		free(CT);
 		return -1;
 	}
 
@@ -65,6 +70,7 @@ int lls_normal(double *A,double *b,int M,int N,double *x) {
 	free(d);
 	free(C);
 	free(y);
+	free(CT);
 	return retcode;
 }
 
-- 
2.43.0


From 52a67bba4fda2bb2dd41fec170a6ed92d797de50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:48 +0000
Subject: [PATCH 33/40] fix: the Phillips-Perron statistic overflowed integers
 for more than 215 observations

---
 src/unitroot.c | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/unitroot.c b/src/unitroot.c
index 8fa0b9e..9ce67c2 100644
--- a/src/unitroot.c
+++ b/src/unitroot.c
@@ -588,11 +588,11 @@ void ur_pp(double *y, int N,const char* alternative,const char* type,int lshort,
     pval - p-value used to determine null hypothesis
 
     */
-    int i,j,N1,N2,p,l,pN,tN,iter;
+    int i,j,N1,p,l,pN,tN,iter;
     double *z,*yt,*yt1,*tt,*XX,*varcovar,*res,*table,*tablep;
     double at,nssqr_res,trm1,trm2,trm3,trm4,dx,alpha,s2,tstat;
     double sum_yt1,sum_yt12,sum_yt1n,interp;
-    long int N3;
+    double Nd,N2,N3;
     reg_object fit;
 
     double nT[6] = {25, 50, 100, 250, 500, 100000};
@@ -606,8 +606,9 @@ void ur_pp(double *y, int N,const char* alternative,const char* type,int lshort,
      -2.64, -2.65, -2.66, -1.53, -1.66, -1.73, -1.78, -1.78, -1.79, -0.43, -0.65, -0.75, -0.82, -0.84, -0.87};// 8X6
 
     N1 = N - 1;
-    N2 = N1 * N1;
-    N3 = N2 * N1;
+    Nd = (double) N1;
+    N2 = Nd * Nd;
+    N3 = N2 * Nd;
 
     pN = 8;
     tN = 6;
@@ -680,9 +681,9 @@ void ur_pp(double *y, int N,const char* alternative,const char* type,int lshort,
     }
 
     trm1 = N2 * (N2-1) *sum_yt12 / 12.0;
-    trm2 = N1 * sum_yt1n * sum_yt1n;
-    trm3 = N1 * (N1+1) * sum_yt1n * sum_yt1;
-    trm4 = (N1 * (N1+1) * (2*N1+1) * sum_yt1 * sum_yt1) / 6.0;
+    trm2 = Nd * sum_yt1n * sum_yt1n;
+    trm3 = Nd * (Nd+1) * sum_yt1n * sum_yt1;
+    trm4 = (Nd * (Nd+1) * (2*Nd+1) * sum_yt1 * sum_yt1) / 6.0;
 
     dx = trm1-trm2+trm3-trm4;
 
-- 
2.43.0


From e4208e168b02d45ba10e49fe5b30c41bd08cecbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:48 +0000
Subject: [PATCH 34/40] fix: the Dickey-Fuller lag selection kept only the last
 covariance matrix to release

---
 src/unitroot.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/unitroot.c b/src/unitroot.c
index 9ce67c2..ca676ba 100644
--- a/src/unitroot.c
+++ b/src/unitroot.c
@@ -233,6 +233,7 @@ void ur_df2(double *y, int N,const char* type, int *lags,const char *selectlags,
                 }
 
                 free_reg(fit);
+                free(varcovar);
             }
 
             ctemp = DBL_MAX;
@@ -250,7 +251,6 @@ void ur_df2(double *y, int N,const char* type, int *lags,const char *selectlags,
 
             free(critRes);
             free(XX);
-            free(varcovar);
         }
 
         XX = (double*)malloc(sizeof(double)*N2*(lags_+1));
-- 
2.43.0


From 1a1c8ca940d0e0b5362ff45d684973734d137f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:48 +0000
Subject: [PATCH 35/40] fix: the seasonal strength of a period longer than half
 the series was never written

---
 src/seastest.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/seastest.c b/src/seastest.c
index cde771f..ae3982f 100644
--- a/src/seastest.c
+++ b/src/seastest.c
@@ -738,6 +738,11 @@ void SHtest(double *x, int N, int *f, int Nseas, double *season) {
         season[j] = tmp1 > 0 ? tmp1 : 0;
 
     }
+
+    // periods mstl left out (at least half the series length) have no strength
+    for(j = Niter; j < Nseas; ++j) {
+        season[j] = 0.0;
+    }
     
     for(i = 0; i < Nseas;++i) {
         free(seasonal[i]);
-- 
2.43.0


From 161d0c36bf5c98b3e02848a1c5a7f4267dc35a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:15 +0000
Subject: [PATCH 36/40] fix: the OCSB test fitted with lag -1 when one lag was
 best, and released fits it never made

---
 src/seastest.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/seastest.c b/src/seastest.c
index ae3982f..fbb14f5 100644
--- a/src/seastest.c
+++ b/src/seastest.c
@@ -648,7 +648,7 @@ void OCSBtest(double *x, int N, int f, int mlags, const char *method,double *sta
         }
 
         bestindex = getBestIndex(icvals,mlags);
-        maxlag = bestindex-1;
+        maxlag = bestindex;
         crit_reg = list[bestindex];
 
     }
@@ -677,6 +677,7 @@ void OCSBtest(double *x, int N, int f, int mlags, const char *method,double *sta
             printf("Could not find a solution. Try a different method. \n");
             exit(-1);
         } else {
+            free_reg(fit);
             fit = crit_reg;
         }
     }
@@ -689,13 +690,16 @@ void OCSBtest(double *x, int N, int f, int mlags, const char *method,double *sta
 
     //mdisplay(tval,1,fit->p);
 
-    for(i = 0; i < mlags;++i) {
-		free_reg(list[i]);
-    }
-
     *critical = calcOCSBCritVal(f);
     *statistics = tval[fit->p-1];
 
+    if (mlags > 0 && strcmp(method,"fixed")) {
+        for(i = 0; i < mlags;++i) {
+            if (list[i] != fit) free_reg(list[i]);
+        }
+    }
+    free_reg(fit);
+
     free(list);
     free(icvals);
     free(tval);
-- 
2.43.0


From 5aa6eab41d6f257ab3b12c5f2f9bfc7e02943e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:39 +0000
Subject: [PATCH 37/40] fix: a non-invertible model with a single moving
 average term was not rejected

---
 src/ctsa.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ctsa.c b/src/ctsa.c
index d932a4a..cc952fb 100644
--- a/src/ctsa.c
+++ b/src/ctsa.c
@@ -862,7 +862,7 @@ myarima_object myarima(double *x, int N, int *order, int *seasonal, int constant
 
 		//printf(" q Q %d \n", q+Q);
 
-		if (q + Q > 1 && fit->ic < DBL_MAX) {
+		if (q + Q > 0 && fit->ic < DBL_MAX) {
 			isum = 0;
 			imx = -1;
 			for(i = 0; i < iq - 1; ++i) {
-- 
2.43.0


From 89cc8aaf37ba49acb13918448319403a9ef4898f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:39 +0000
Subject: [PATCH 38/40] fix: the exhaustive search used an unset constant flag
 when no model was acceptable

---
 src/ctsa.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ctsa.c b/src/ctsa.c
index cc952fb..2eedddf 100644
--- a/src/ctsa.c
+++ b/src/ctsa.c
@@ -936,6 +936,7 @@ myarima_object search_arima(double *x, int N,int d, int D, int p_max, int q_max,
 	//printf("d %d D %d p_max %d q_max %d P_max %d Q_max %d maxK %d \n",d,D,p_max,q_max,P_max,Q_max,maxK);
 
 	best_ic = DBL_MAX;
+	bestK = 0;
 
 	for(i = 0; i <= p_max; ++i) {
 		for(j = 0;j <= q_max;++j) {
-- 
2.43.0


From 7bb9f29c76ebee00085b0d2e6a14853d78afbdaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:39 +0000
Subject: [PATCH 39/40] fix: the singular value decomposition and the rank kept
 their buffers when the iteration failed

---
 src/matrix.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/matrix.c b/src/matrix.c
index abb88e1..6e31922 100644
--- a/src/matrix.c
+++ b/src/matrix.c
@@ -2808,6 +2808,7 @@ int svd(double *A,int M,int N,double *U,double *V,double *q) {
 			iter++;
 			if (iter > SVDMAXITER) {
 				printf("Convergence Not Achieved \n");
+				free(e);
 				return 15;
 			}
 
@@ -2963,6 +2964,9 @@ static int rank_c(double *A, int M,int N) {
 	qmax = q[0];
 	if ( ret != 0) {
 		printf("Failed to Compute SVD");
+		free(U);
+		free(V);
+		free(q);
 		return -1;
 	}
 
-- 
2.43.0


From fe065995d17764764673841977483a450f6373a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:24 +0000
Subject: [PATCH 40/40] fix: the beta density at the ends of its range ignored
 the vanishing or infinite factor

---
 src/dist.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/dist.c b/src/dist.c
index 0dfa448..c43e4c4 100644
--- a/src/dist.c
+++ b/src/dist.c
@@ -725,6 +725,14 @@ double betapdf(double x, double a , double b) {
 		exit(1);
 	} 
 	
+	// limits at the ends of the range
+	if ((x == 0. && a < 1.) || (x == 1. && b < 1.)) {
+		return XINFVAL;
+	}
+	if ((x == 0. && a > 1.) || (x == 1. && b > 1.)) {
+		return 0.;
+	}
+	
 	if (a == 1. || x == 0.) {
 		la = 0.;
 	} else {
-- 
2.43.0

