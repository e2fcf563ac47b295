"""The properties: what each says, which functions carry it.  gen.py writes properties.jsonl and MANIFEST.json from this table."""
PROPS = {}
def prop(id, title, statement, over, qtext, why, files, mech, functions, note='', level='proof'):
    PROPS[id] = dict(title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, functions=functions, note=note, level=level)

prop('C01', 'Direct convolution and polynomial products equal the mathematical convolution',
  'For every pair of non-empty real sequences of lengths N and L, the direct convolution routines and the polynomial product write exactly the N+L-1 coefficients out[k] = sum of a[m]*b[k-m], whichever operand is longer, and the causal filter returns the first N of them. They read only inside the two inputs, write only inside the output, release every temporary buffer and leave the inputs unchanged.',
  ['inputs'], 'all lengths N, L >= 1 in either order and all real coefficients',
  'Tests exercise a handful of ARIMA polynomial products of small fixed orders; the boundary regions (N<L, N=L, length 1) depend on index arithmetic for every pair of lengths.',
  ['src/conv.c', 'src/filter.c', 'src/talg.c'],
  [('direct and extended direct convolution', 'src/conv.c conv_direct, conv_directx'), ('wrappers and FIR filter', 'src/filter.c conv, convx, filter'), ('polynomial product', 'src/talg.c poly')],
  ['conv_direct', 'conv_directx', 'conv', 'convx', 'filter', 'poly'])
prop('C02', 'Differencing operators and resampling follow the backshift algebra',
  'Ordinary differencing of order d and seasonal differencing of order D and period s apply exactly the coefficients of (1-B)^d and (1-B^s)^D, return the shortened length N-d or N-D*s, and produce each output from the corresponding input lags only; order 0 is the identity. Up-sampling by M places the samples at multiples of M with zeros between them, down-sampling keeps every M-th sample, and both report the new length.',
  ['inputs', 'configurations'], 'all series lengths, orders d, D >= 0, periods s >= 1, factors M and all real samples',
  'The tests reach orders 0, 1 and 2 with one seasonal period on a few series; the statement is about the operator for every order and period.',
  ['src/talg.c'], [('operator coefficients', 'src/talg.c deld, delds'), ('differencing', 'src/talg.c diff, diffs'), ('resampling', 'src/talg.c upsample, downsample')],
  ['deld', 'delds', 'diff', 'diffs', 'upsample', 'downsample'])
prop('C03', 'Sample moments, autocovariance and autocorrelation match their definitions',
  'The mean and (population) variance of a series equal their textbook sums, the lag-k sample autocovariance is (1/N) * sum over t of (x[t]-mean)(x[t+k]-mean), and the autocorrelation is its ratio to the lag-0 value with lag 0 equal to 1. Exactly the requested number of lags is written and no element outside the series is read.',
  ['inputs'], 'all series of length N >= 1 and all lag counts M (clamped to the series length)',
  'acftest prints values of a single series without asserting them; the indexing of the cross products matters for every N and lag.',
  ['src/stats.c'], [('moments', 'src/stats.c mean, var'), ('direct autocovariance / autocorrelation', 'src/stats.c autocovar, autocorr')],
  ['mean', 'var', 'autocovar', 'autocorr'])
prop('C04', 'ARMA weight expansions and the stationarity transform follow their recursions',
  'The psi weights of an ARMA(p,q) model satisfy psi[0]=1 and psi[i] = theta[i] + sum of phi[k]*psi[i-k] over k <= min(p,i) (theta[i]=0 beyond q), and the pi weights satisfy the mirrored recursion with the signs and roles exchanged, for any number of requested weights. The unconstrained-to-stationary autoregressive transform maps its inputs through tanh and the Durbin-Levinson recursion, block by block for a seasonal model, also when applied in place, and the inverse transform recovers the inputs.',
  ['inputs', 'configurations'], 'all orders p, q >= 0, all numbers of weights, all real coefficients',
  'Tests fit a few low-order models and never inspect these weights; the boundary between i<=q, i>q and i<p, i>=p is reached only for special orders.',
  ['src/talg.c'], [('weights', 'src/talg.c psiweight, piweight'), ('transform', 'src/talg.c artrans, arinvtrans, transall')],
  ['psiweight', 'piweight', 'artrans', 'arinvtrans', 'transall', 'cl_artrans_roundtrip'])
prop('C05', 'Matrix kernels compute the exact algebraic results and linear systems are solved',
  'Transposition, element-wise sum and difference, scaling, zero padding and every matrix product variant (plain, transposed-copy, cache-oblivious recursive, dispatching, Strassen) give the textbook result for all shapes, including strided sub-blocks whose surrounding elements stay untouched. Row-pivoted LU factors reproduce the row-permuted matrix with multipliers of magnitude at most one; the triangular solves give the solution of the factored system, and solving or inverting a regular system through them satisfies A*x=b and A*inv=I.',
  ['inputs', 'configurations'], 'all row and column counts >= 1, all strides at least the width, all real entries',
  'matrix kernels are exercised by the tests only through a few small regressions; the recursive and blocked paths switch on sizes no test reaches.',
  ['src/matrix.c'], [('products', 'src/matrix.c nmult, tmult, recmult, rmult, mmult, smult'), ('transposes', 'src/matrix.c stranspose, rtranspose, ctranspose, mtranspose'), ('element-wise and strided', 'src/matrix.c madd, msub, scale, madd_stride, msub_stride, add_zero_pad, remove_zero_pad'), ('linear systems', 'src/matrix.c ludecomp, linsolve, minverse')],
  ['l2norm', 'array_max_abs', 'array_max', 'array_min', 'stranspose', 'rtranspose', 'ctranspose', 'mtranspose', 'madd', 'msub', 'scale', 'nmult', 'tmult', 'mmult', 'smult', 'rmult', 'recmult', 'add_zero_pad', 'remove_zero_pad', 'madd_stride', 'msub_stride', 'ludecomp', 'linsolve', 'eye', 'eye_scale', 'cl_solve'],
  note='Strassen multiplication (smult) and the pivoted elimination (ludecomp, and its composition with the solves) are only checked by bounded runs')
prop('C06', 'Smoothing filters compute the documented weighted averages, ends included',
  'A centred moving average of odd window w replaces sample k by the mean of the w samples around it; for an even window the two outermost of w+1 samples count half; samples beyond either end are replaced by the first or last sample (or, in the variant that leaves the ends alone, the first and last floor(w/2) outputs equal the input). Exponential smoothing satisfies out[0]=x[0], out[i]=alpha*x[i]+(1-alpha)*out[i-1], and a weighted filter uses exactly the given weights in order.',
  ['inputs', 'configurations'], 'all series lengths N >= 1, all windows >= 1 (odd and even, also longer than the series), all weights',
  'No test calls these filters directly; the end corrections differ by parity and by how the window compares with the series length.',
  ['src/filter.c', 'src/talg.c'], [('moving averages', 'src/filter.c mafilter, mafilter2, mafilter_wt; src/talg.c detrend_ma'), ('exponential smoothing', 'src/filter.c expfilter')],
  ['mafilter', 'mafilter2', 'expfilter', 'mafilter_wt', 'detrend_ma'])
prop('C07', 'Forecast accuracy measures equal their definitions',
  'For every pair of predicted and actual series the mean error, mean squared error, root mean squared error, mean absolute error, mean percentage error, mean absolute percentage error and mean absolute scaled error equal their standard definitions, with error = actual - predicted, percentages taken of the actual values, and scaling by the mean absolute one-step naive error of the training series. Inputs are unchanged and nothing is leaked.',
  ['inputs'], 'all series of length N >= 1 and all values (actual values non-zero for percentages; training series of length >= 2)',
  'misctests samples one pair of short series; sign and normalisation conventions hold for every length and sign pattern.',
  ['src/errors.c'], [('accuracy measures', 'src/errors.c me, mse, rmse, mae, mape, mpe, mase')],
  ['pe', 'me', 'mse', 'rmse', 'mae', 'mape', 'mpe', 'mase'])
prop('C08', 'The Box-Cox transform, its inverse and its automatic parameter agree',
  'For positive data the transform gives log(x) when lambda is 0 and (x^lambda-1)/lambda otherwise, the inverse recovers the original series exactly, in place or into another buffer, and the profile log-likelihood it maximises is (up to its constant) the normal likelihood of the transformed data. A supplied lambda is used as given, an automatically chosen one lies in [-2,2]; constant series and series with negative values are rejected and no other input is.',
  ['inputs', 'configurations'], 'all series lengths, all positive values, all lambda (0, or at least 1e-16 away from 0)',
  'misctests transforms a single series with the estimated lambda; the identity between both directions and the rejection rule range over all series and all lambda.',
  ['src/boxcox.c', 'src/brent.c', 'src/optimc.c'], [('transform pair', 'src/boxcox.c boxcox_eval, inv_boxcox_eval'), ('likelihood', 'src/boxcox.c boxcox_loglik'), ('screening', 'src/boxcox.c checkConstant, boxcox'), ('bracketed minimiser', 'src/brent.c brent_local_min, src/optimc.c fminbnd')],
  ['boxcox_eval', 'inv_boxcox_eval', 'checkConstant', 'checkNegative', 'cl_boxcox_roundtrip', 'cl_boxcox_loglik', 'boxcox'],
  note='the bracketed minimiser (brent_local_min) is only checked by bounded runs; its interval guarantee is not proved')
prop('C09', 'Start estimates and partial autocorrelations follow their classical recursions',
  'Yule-Walker estimation returns the Levinson-Durbin solution for the sample autocorrelations, with the innovation variance acov[0]*(1 - sum of phi[j]*rho[j]); Burg estimation follows the forward/backward prediction-error recursion on the whole series, with its variance; the innovations algorithm returns the one-step coefficients and variances of its recursion, and the moving-average start values are taken from its last row. The partial autocorrelation at lag k is the last coefficient of the order-k Yule-Walker or Burg fit, and the Hannan-Rissanen estimates satisfy the normal equations of the regression on lagged values and lagged long-autoregression residuals.',
  ['inputs', 'configurations'], 'all orders p, q and lag counts below the series length and all non-degenerate series',
  'the ar/pacf example programs run single orders on one data set; the in-place coefficient updates and the shifted error arrays go wrong only at particular orders and indices.',
  ['src/initest.c', 'src/ctsa.c'], [('Yule-Walker', 'src/initest.c ywalg, ywalg2, pacf_yw; src/ctsa.c yw, pacf'), ('Burg', 'src/initest.c burgalg, pacf_burg; src/ctsa.c burg'), ('innovations', 'src/initest.c innalg, ma_inn'), ('Hannan-Rissanen', 'src/initest.c hralg'), ('dispatch', 'src/ctsa.c ar, pacf_opt, acvf, acvf2acf')],
  ['ywalg', 'ywalg2', 'pacf_yw', 'innalg', 'ma_inn', 'acvf', 'acvf2acf', 'pacf', 'yw', 'burgalg', 'pacf_burg', 'burg', 'ar', 'pacf_opt', 'hralg'],
  note='Hannan-Rissanen (hralg) is only checked by bounded runs')
prop('C10', 'Sorting, interpolation and small array helpers return what they promise',
  'Index sorting returns a permutation that orders the values. Linear interpolation returns the value of the segment enclosing the query point, the first or last value outside the range, for sorted and for unsorted abscissae alike. Cumulative sums, equally spaced grids, minimum/maximum of an array and the weighted autocovariance sum of the unit-root tests equal their definitions.',
  ['inputs'], 'all array lengths, all values (distinct abscissae for interpolation), all query points inside, at the end of or outside the range',
  'tests use interpolation only inside the unit-root tables; the bisection has to be right for every length and query position.',
  ['src/talg.c', 'src/matrix.c'], [('interpolation', 'src/talg.c interpolate_linear, approx'), ('sorting', 'src/matrix.c sort1d, sort1d_ascending'), ('helpers', 'src/talg.c cumsum, linspace, arrayminmax, ppsum')],
  ['sort1d', 'sort1d_ascending', 'interpolate_linear', 'interpolate_linear_sorted_ascending', 'approx', 'cumsum', 'linspace', 'arrayminmax', 'ppsum'],
  note='the two index sorts (qsort with a comparison callback) are only checked by bounded runs')
prop('C11', 'Forecasts are the finite-sample predictions of the fitted seasonal ARIMA model',
  'For every fitted model object the predicted values and mean square errors are those of finite-sample (Kalman, AS 182) prediction for the autoregressive polynomial phi(B)PHI(B^s), the moving-average polynomial theta(B)THETA(B^s) and the differencing polynomial (1-B)^d(1-B^s)^D, applied to the series after removing the mean (undifferenced models only), the drift and the regression terms, which are added back for the forecast times. The model object is only read, no buffer is over-read for any order, every temporary buffer is released.',
  ['inputs', 'configurations'], 'all orders p,d,q,P,D,Q,s, all series longer than the differencing order, all horizons and regressor counts, with and without drift',
  'the example programs forecast one model per data set; expansion of the seasonal polynomials, indexing of regressors and the sign conventions go wrong only for particular order combinations.',
  ['src/ctsa.c', 'src/emle.c'], [('non-seasonal and AR forecasts', 'src/ctsa.c arima_predict, ar_predict'), ('seasonal forecasts', 'src/ctsa.c sarima_predict, sarimax_predict'), ('automatic models', 'src/ctsa.c auto_arima_predict, sarimax_wrapper_predict'), ('finite-sample prediction', 'src/emle.c forkal')],
  ['arima_predict', 'ar_predict', 'sarima_predict', 'sarimax_predict', 'auto_arima_predict', 'sarimax_wrapper_predict', 'forkal'],
  note='the prediction recursion itself (forkal) is only checked by bounded runs against a plain-matrix Kalman reference')
prop('C12', 'CSS estimation evaluates and reports the documented objective',
  'For every trial coefficient vector the conditional-sum-of-squares objective is half the log of the mean squared residual, the residuals following the ARMA recursion of the (seasonally expanded) polynomials on the demeaned or regression-adjusted differenced series, with the first p+s*P residuals zero; the working objects have room for every series kept in them. What an estimation reports (innovation variance, log-likelihood, residuals, mean) belongs to the coefficients it returns, and these are no worse than the all-zero start.',
  ['inputs', 'configurations'], 'all orders p,q,P,Q,s, all series longer than the orders, all coefficient vectors, with and without mean and regressors',
  'tests fit a handful of models and print them; an index slip in a recursion changes every fit a little, and nothing asserts the fitted values.',
  ['src/emle.c'], [('objective', 'src/emle.c fcss, fcss_seas, fcssx'), ('working objects', 'src/emle.c alik_css_init, alik_css_seas_init, xlik_css_init'), ('estimation', 'src/emle.c css, css_seas, cssx')],
  ['fcss', 'fcss_seas', 'fcssx', 'alik_css_init', 'alik_css_seas_init', 'xlik_css_init', 'css', 'css_seas', 'cssx'],
  note='the three estimation drivers (css, css_seas, cssx), which run an iterative optimiser, are only checked by bounded runs')
prop('C13', 'Exact estimation evaluates and reports the Gaussian likelihood',
  'For every trial coefficient vector the exact-likelihood objective combines the sum of squared standardised innovations and the sum of log innovation variances of the stationary ARMA process with the (seasonally expanded) coefficients on the demeaned or regression-adjusted differenced series, the start covariance and the filter agreeing with the state-space model. What an exact estimation reports (innovation variance, likelihood, residuals, mean) belongs to the coefficients it returns, which are no worse than the all-zero start when it starts there, and all temporary storage is released on every exit.',
  ['inputs', 'configurations'], 'all orders including models without ARMA terms, all series longer than the orders, all coefficient vectors, with and without mean and regressors, all optimisers',
  'tests fit a handful of models and print them; special orders (pure autoregressions, models without ARMA terms) take their own branches that no test asserts.',
  ['src/emle.c'], [('objective', 'src/emle.c fas154, fas154_seas, fas154x_seas'), ('working objects', 'src/emle.c alik_init, alik_seas_init, xlik_init'), ('start covariance, filter', 'src/emle.c starma, karma'), ('estimation', 'src/emle.c as154, as154_seas, as154x')],
  ['fas154', 'fas154_seas', 'fas154x_seas', 'alik_init', 'alik_seas_init', 'xlik_init', 'starma', 'karma', 'as154', 'as154_seas', 'as154x'],
  note='the start covariance and the filter (starma, karma) and the three estimation drivers are only checked by bounded runs against a plain-matrix state-space reference')
prop('C14', 'Model objects keep their layout, settings and results consistent',
  'Creating a model records its orders, sizes its storage for coefficients, residuals and covariance and points every member at its own part of it, rejects negative orders, and starts from the documented defaults. Every setter stores an accepted value, ignores any other, and changes nothing else. Running an estimation stores the likelihood, information criterion, coefficients, residuals and covariance the estimator reported without touching the recorded orders and settings, and the covariance accessor returns exactly the stored matrix.',
  ['inputs', 'configurations', 'histories'], 'all orders, lengths, regressor counts, all setting values, all estimation methods',
  'tests create a few models with the default settings and print the summary; overlapping parts of the storage or a setter writing the wrong member only show for other orders or settings.',
  ['src/ctsa.c', 'header/ctsa.h'], [('creation', 'src/ctsa.c arima_init, sarima_init, sarimax_init, ar_init, auto_arima_init'), ('settings', 'src/ctsa.c *_setMethod, *_setOptMethod, *_setCSSML, auto_arima_set*, auto_arima_allow*, sarimax_setParams'), ('estimation on an object', 'src/ctsa.c arima_exec, sarima_exec, sarimax_exec'), ('covariance', 'src/ctsa.c arima_vcov, sarima_vcov, sarimax_vcov')],
  ['arima_init', 'sarima_init', 'sarimax_init', 'ar_init', 'auto_arima_init', 'arima_setMethod', 'arima_setOptMethod', 'sarima_setMethod', 'sarima_setOptMethod', 'sarimax_setMethod', 'sarimax_setOptMethod', 'auto_arima_setMethod', 'auto_arima_setOptMethod', 'arima_setCSSML', 'sarima_setCSSML', 'auto_arima_setApproximation', 'auto_arima_setStepwise', 'auto_arima_setStationary', 'auto_arima_setSeasonal', 'auto_arima_allowMean', 'auto_arima_allowDrift', 'auto_arima_setVerbose', 'sarimax_setParams', 'arima_exec', 'sarima_exec', 'sarimax_exec', 'arima_vcov', 'sarima_vcov', 'sarimax_vcov'],
  note='the estimation drivers called by the exec functions are used through contracts that are only checked by bounded runs (C12, C13)')
prop('C16', 'Seasonal decomposition by loess splits a series as documented',
  'The decomposition adds up: seasonal + trend + remainder equals the series (its Box-Cox transform when one is asked for), and seasonal and trend are those of the loess procedure (Cleveland et al.) for the windows, degrees, jumps, inner and robustness iterations given, or for the documented defaults; a periodic window yields a seasonal part equal to the means of its cycle; without a period the seasonal part is zero and the trend is the super smoother of the series; with several periods each one shorter than half the series is removed in turn. The building blocks (running means, tricube local fits, cycle-subseries smoothing, order statistics, robustness weights, running-line smoother, lag matrix, seasonal strength) equal their definitions.',
  ['inputs', 'configurations'], 'all series lengths, periods, windows, degrees, jumps, iteration counts and robustness settings, with and without a transform',
  'tests decompose one monthly series with the defaults and print it; given windows, robustness weights, odd lengths and several periods take paths no test asserts.',
  ['src/stl.c', 'src/seastest.c', 'src/talg.c'], [('loess', 'src/stl.c stlest_, stless_, stlss_, stlfts_, stlma_'), ('robustness weights', 'src/stl.c stlrwt_, psort_'), ('iterations', 'src/stl.c stl_, stlstp_'), ('interface', 'src/seastest.c stl, modstl, mstl, SHtest, genLags'), ('super smoother', 'src/talg.c supsmu')],
  ['stlma_', 'stlest_', 'stlfts_', 'stless_', 'stlss_', 'psort_', 'stlrwt_', 'stl_', 'nextOdd', 'degCheck', 'cycle', 'applySeasonalMean', 'cl_stl', 'cl_stl_period', 'modstl', 'cl_mstl2', 'supsmu', 'SHtest', 'genLags'],
  note='the smooth over a whole series, cycle-subseries smoothing, the partial sort, robustness weights, the iterations (stl_), the super smoother, mstl and SHtest are only checked by bounded runs against list-based references')
prop('C15', 'Densities, distribution functions and quantiles are the textbook functions',
  'The gamma, log-gamma, factorial, incomplete gamma and incomplete beta functions, the error functions and their inverses equal the mathematical functions. The densities and distribution functions of the normal, t, F, gamma, beta and chi-square laws are the textbook expressions of these for every valid parameter and argument (both tails, either ordering of the degrees of freedom), and the quantile functions invert the distribution functions with the documented extreme value at probability 0 or 1 where the quantile is infinite; the t quantile below one half is negative. Arguments outside the domain (and 0 for the gamma and chi-square densities with a shape other than 1) end the program with a message, no others do.',
  ['inputs', 'configurations'], 'all parameters in the documented domain and all arguments',
  'No test calls the distribution functions; regression prints a few of their values. The case split on argument and degrees of freedom and the sign below the median are reached only for particular arguments.',
  ['src/dist.c', 'src/pdist.c', 'src/erfunc.c'], [('special functions', 'src/dist.c gamma, gamma_log, factorial, beta, pgamma, ibeta, betainv; src/erfunc.c'), ('densities and distribution functions', 'src/pdist.c *pdf, *cdf'), ('quantiles', 'src/pdist.c *inv')],
  ['gamma', 'gamma_log', 'factorial', 'pgamma', 'qgamma', 'ibeta', 'ibetac', 'beta_log', 'beta', 'betapdf', 'ibetad', 'betacdf', 'betainv', 'erf', 'erfc', 'erfcx', 'erfinv', 'erfcinv', 'normalpdf', 'normalcdf', 'normalinv', 'tpdf', 'tcdf', 'fcdf', 'fpdf', 'gammapdf', 'gammacdf', 'chipdf', 'chicdf', 'gammainv', 'chiinv', 'finv', 'tinv'],
  note='the special functions and the iterative quantiles (gamma, gamma_log, factorial, pgamma, ibeta, betainv, erf, erfc, erfcx, erfinv, erfcinv, gammainv, finv, tinv) are only checked by bounded runs against scipy; the densities, distribution functions and remaining quantiles are proved to be the textbook expressions of them')
prop('C17', 'Least squares regression reports the fit, its uncertainty and its criteria',
  'Regression, with or without intercept and by any of the three solvers, returns the coefficients that minimise the residual sum of squares, the residuals, the residual variance RSS/(N-p), the covariance matrix of the coefficients, confidence limits at the level asked for (coefficients by t, variance by chi-square quantiles), R2 and adjusted R2, the decomposition TSS=ESS+RSS with its degrees of freedom, the F statistic with its p-value (none for a model without regressors), and log-likelihood, AIC, BIC and AICc. The zero-hypothesis test gives |b|/se and its one-tailed probability; prediction at a point gives the fitted value with the variances of the mean and of a new observation. The least squares solvers satisfy the normal equations, or the system itself when it is not overdetermined.',
  ['inputs', 'configurations'], 'all full-rank regressions with more observations than coefficients, zero coefficients included, and all levels',
  'Regression is used by the tests only inside model fitting, where the reported statistics are never looked at.',
  ['src/regression.c', 'src/lls.c'], [('solvers', 'src/lls.c lls_qr, lls_normal, lls_svd2'), ('regression', 'src/regression.c linreg_multi, linreg_clrm, regress, fitted'), ('tests', 'src/regression.c zerohyp_multi')],
  ['zerohyp_multi', 'lls_qr', 'lls_normal', 'lls_svd2', 'linreg_multi', 'linreg_clrm', 'cl_regress', 'cl_fitted'],
  note='only the zero-hypothesis test is proved for all inputs; the solvers (orthogonal factorisation over floating point) and everything computed from their solution are checked by bounded runs against numpy/scipy')
prop('C18', 'Unit-root tests and the numbers of differences follow their published formulas',
  'The augmented Dickey-Fuller tests (tseries and urca forms, given lags or lags chosen by AIC or BIC), the KPSS test and the Phillips-Perron tests (both forms) report the published statistic of the series, for the lag given or the documented default, with the p-value interpolated from the published table or the critical values of the sample size. The number of ordinary differences is the smallest one, up to the maximum, at which the chosen test no longer asks for differencing or the series is constant; the number of seasonal differences likewise by the strength of seasonality (none for a period below two). All temporary storage is released, the series is unchanged.',
  ['inputs', 'configurations'], 'all series, lags, test types, levels and maxima',
  'The tests reach the unit-root tests only through automatic model selection on two series; longer series, given lags and the other variants are never asserted.',
  ['src/unitroot.c', 'src/autoutils.c', 'src/seastest.c'], [('Dickey-Fuller', 'src/unitroot.c ur_df, ur_df2'), ('KPSS', 'src/unitroot.c ur_kpss'), ('Phillips-Perron', 'src/unitroot.c ur_pp, ur_pp2'), ('numbers of differences', 'src/autoutils.c ndiffs, nsdiffs'), ('seasonal tests', 'src/seastest.c SHtest, OCSBtest')],
  ['ur_df', 'ur_df2', 'ur_kpss', 'ur_pp', 'ur_pp2', 'ndiffs', 'nsdiffs', 'OCSBtest', 'cumsum', 'ppsum', 'genLags'],
  note='the tests themselves and the numbers of differences are checked by bounded runs against numpy references of the published formulas; the sums, the lag matrix and the differencing they use are proved; of the OCSB test only memory safety and the critical value are checked')
NOT_APPLICABLE = []
