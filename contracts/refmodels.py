"""Concrete meaning of the specification functions that contracts leave uninterpreted: plain-matrix reference
computations, used when a contract is evaluated on concrete inputs (replay of a failed proof, bounded runs)."""
import math, functools
try: import numpy as _np
except ImportError: _np = None
_cache = {}
def _l(v, n): return [float(v[i]) for i in range(n)]
def _key(*a): return a
def solve(A, b):
    n = len(b); A = [r[:] + [b[i]] for i, r in enumerate(A)]
    for c in range(n):
        p = max(range(c, n), key=lambda r: abs(A[r][c]))
        if abs(A[p][c]) < 1e-12: raise ValueError('singular')
        A[c], A[p] = A[p], A[c]
        for r in range(n):
            if r != c and A[r][c] != 0.0:
                f = A[r][c] / A[c][c]
                for k in range(c, n + 1): A[r][k] -= f * A[c][k]
    return [A[i][n] / A[i][i] for i in range(n)]
def mm(A, B): return [[sum(A[i][k] * B[k][j] for k in range(len(B)) if A[i][k] != 0.0) for j in range(len(B[0]))] for i in range(len(A))]
def tr(A): return [list(r) for r in zip(*A)]
def companion(ip, iq, phi):
    r = max(ip, iq + 1)
    return r, [[(phi[i] if (j == 0 and i < ip) else 0.0) + (1.0 if j == i + 1 else 0.0) for j in range(r)] for i in range(r)]
def stationary_cov(ip, iq, phi, theta):
    """P = T P T' + R R', state of the ARMA(ip,iq) companion form, innovations of unit variance"""
    r, T = companion(ip, iq, phi)
    R = [1.0] + [theta[i] if i < iq else 0.0 for i in range(r - 1)]
    ix = {}
    for i in range(r):
        for j in range(i, r): ix[(i, j)] = len(ix)
    n = len(ix); A = [[0.0] * n for _ in range(n)]; b = [0.0] * n
    g = lambda i, j: ix[(min(i, j), max(i, j))]
    for i in range(r):
        for j in range(i, r):
            e = ix[(i, j)]; A[e][e] += 1.0; b[e] = R[i] * R[j]
            for k in range(r):
                if T[i][k] == 0.0: continue
                for l in range(r):
                    if T[j][l] != 0.0: A[e][g(k, l)] -= T[i][k] * T[j][l]
    x = solve(A, b)
    return r, T, R, [[x[g(i, j)] for j in range(r)] for i in range(r)]
def kalman(ip, iq, phi, theta, w):
    """filtered state and covariance after the series w; standardised residuals, log variances"""
    r, T, R, P = stationary_cov(ip, iq, phi, theta)
    a = [0.0] * r; res = []; sl = 0.0; ssq = 0.0
    for t, y in enumerate(w):
        if t:
            a = [sum(T[i][k] * a[k] for k in range(r)) for i in range(r)]
            P = mm(mm(T, P), tr(T)); P = [[P[i][j] + R[i] * R[j] for j in range(r)] for i in range(r)]
        f = P[0][0]
        if f <= 0: raise ValueError('not stationary')
        u = y - a[0]
        g = [P[i][0] / f for i in range(r)]
        a = [a[i] + g[i] * u for i in range(r)]
        P = [[P[i][j] - g[i] * P[0][j] for j in range(r)] for i in range(r)]
        res.append(u / math.sqrt(f)); sl += math.log(f); ssq += u * u / f
    return a, P, res, sl, ssq, T, R
def forecast(ip, iq, id, phi, theta, delta, N, W, L):
    phi = _l(phi, ip); theta = _l(theta, iq); delta = _l(delta, id); W = _l(W, N)
    key = (ip, iq, id, tuple(phi), tuple(theta), tuple(delta), tuple(W))
    c = _cache.get(key)
    if c is None or c[2] < L:
        L2 = max(L, 8)
        w = [W[t] - sum(delta[k] * W[t - 1 - k] for k in range(id)) for t in range(id, N)]
        a, P, res, sl, ssq, T, R = kalman(ip, iq, phi, theta, w)
        s2 = sum(e * e for e in res) / len(res)
        r = len(a); n = r + id
        TT = [[0.0] * n for _ in range(n)]
        for i in range(r):
            for j in range(r): TT[i][j] = T[i][j]
        if id:
            TT[r][0] = 1.0
            for j in range(id): TT[r][r + j] = delta[j]
            for j in range(1, id): TT[r + j][r + j - 1] = 1.0
        Z = [1.0] + [0.0] * (r - 1) + delta
        A = a + [W[N - 2 - j] for j in range(id)]      # with the w of time N-1 in a[0]: the y before it
        PP = [[P[i][j] if i < r and j < r else 0.0 for j in range(n)] for i in range(n)]
        RR = R + [0.0] * id
        ys = []; ms = []
        for l in range(L2):
            A = [sum(TT[i][k] * A[k] for k in range(n)) for i in range(n)]
            PP = mm(mm(TT, PP), tr(TT)); PP = [[PP[i][j] + RR[i] * RR[j] for j in range(n)] for i in range(n)]
            ys.append(sum(z * x for z, x in zip(Z, A)))
            ms.append(s2 * sum(Z[i] * Z[j] * PP[i][j] for i in range(n) for j in range(n)))
        if len(_cache) > 200: _cache.clear()
        c = _cache[key] = (ys, ms, L2)
    return c
def fkY(ip, iq, id, phi, theta, delta, N, W, l): return forecast(ip, iq, id, phi, theta, delta, N, W, l + 1)[0][l]
def fkM(ip, iq, id, phi, theta, delta, N, W, l): return forecast(ip, iq, id, phi, theta, delta, N, W, l + 1)[1][l]
def _stat(ip, iq, phi, theta):
    phi = _l(phi, ip); theta = _l(theta, iq); key = ('S', ip, iq, tuple(phi), tuple(theta))
    if key not in _cache: _cache[key] = stationary_cov(ip, iq, phi, theta)
    return _cache[key]
def tri(r, k):
    for i in range(r):
        if k < r - i: return i, i + k
        k -= r - i
    raise IndexError
def lP(ip, iq, phi, theta, k):
    r, T, Rv, P = _stat(ip, iq, phi, theta); i, j = tri(r, k)
    return P[i][j]
def lV(ir, iq, theta, k):
    Rv = [1.0] + [float(theta[i]) if i < iq else 0.0 for i in range(ir - 1)]; i, j = tri(ir, k)
    return Rv[i] * Rv[j]
def _kal(ip, iq, phi, theta, N, W):
    phi = _l(phi, ip); theta = _l(theta, iq); W = _l(W, N); key = ('K', ip, iq, tuple(phi), tuple(theta), tuple(W))
    if key not in _cache:
        if len(_cache) > 200: _cache.clear()
        _cache[key] = kalman(ip, iq, phi, theta, W)
    return _cache[key]
def kR(ip, iq, phi, theta, N, W, t): return _kal(ip, iq, phi, theta, N, W)[2][t]
def kSL(ip, iq, phi, theta, N, W): return _kal(ip, iq, phi, theta, N, W)[3]
def kSS(ip, iq, phi, theta, N, W): return _kal(ip, iq, phi, theta, N, W)[4]
def _css(ip, iq, phi, theta, N, W):
    phi = _l(phi, ip); theta = _l(theta, iq); W = _l(W, N); key = ('C', ip, iq, tuple(phi), tuple(theta), tuple(W))
    if key not in _cache:
        if len(_cache) > 200: _cache.clear()
        e = [0.0] * N
        for t in range(ip, N):
            e[t] = W[t] - sum(phi[j] * W[t - 1 - j] for j in range(ip)) - sum(theta[j] * e[t - 1 - j] for j in range(min(iq, t - ip)))
        _cache[key] = e
    return _cache[key]
def cssE(ip, iq, phi, theta, N, W, t): return _css(ip, iq, phi, theta, N, W)[t]
def cssS(ip, iq, phi, theta, N, W): return sum(x * x for x in _css(ip, iq, phi, theta, N, W))
# ---------------------------------------------------------------- STL (Cleveland et al. 1990), plain lists
def _lo_point(y, ln, deg, x, lo, hi, rw):
    """weighted local fit at x of the samples lo..hi (1-based); None when all weights vanish"""
    n = len(y); h = max(x - lo, hi - x) + ((ln - n) // 2 if ln > n else 0)
    w = {}
    for j in range(lo, hi + 1):
        r = abs(j - x)
        if r <= 0.999 * h: w[j] = (1.0 if r <= 0.001 * h else (1 - (r / h) ** 3) ** 3) * (rw[j - 1] if rw else 1.0)
        else: w[j] = 0.0
    a = sum(w.values())
    if a <= 0: return None
    w = {j: v / a for j, v in w.items()}
    if h > 0 and deg > 0:
        m = sum(v * j for j, v in w.items()); c = sum(v * (j - m) ** 2 for j, v in w.items())
        if math.sqrt(c) > 0.001 * (n - 1): w = {j: v * ((x - m) / c * (j - m) + 1) for j, v in w.items()}
    return sum(v * y[j - 1] for j, v in w.items())
def _lo_window(n, ln, i):
    if ln >= n: return 1, n
    lo = max(1, min(i - (ln + 1) // 2 + 1, n - ln + 1)); return lo, lo + ln - 1
def lo_smooth(y, ln, deg, jump, rw):
    n = len(y)
    if n < 2: return list(y)
    nj = min(jump, n - 1); out = [None] * n
    def at(i, e):
        v = _lo_point(y, ln, deg, i, *_lo_window(n, ln, e), rw); return y[i - 1] if v is None else v
    pts = list(range(1, n + 1, nj))
    for i in pts: out[i - 1] = at(i, i)
    if pts[-1] != n: out[n - 1] = at(n, pts[-1]); pts.append(n)
    for a, b in zip(pts, pts[1:]):
        for j in range(a + 1, b): out[j - 1] = out[a - 1] + (out[b - 1] - out[a - 1]) / (b - a) * (j - a)
    return out
def _ma(x, L): return [sum(x[i:i + L]) / L for i in range(len(x) - L + 1)]
def stl_cycle(y, np_, ns, deg, jump, rw):
    """cycle-subseries smoothing, one period longer at both ends"""
    n = len(y); out = [0.0] * (n + 2 * np_)
    for j in range(np_):
        sub = y[j::np_]; k = len(sub); w = rw[j::np_] if rw else None
        s = lo_smooth(sub, ns, deg, jump, w)
        a = _lo_point(sub, ns, deg, 0, 1, min(ns, k), w); b = _lo_point(sub, ns, deg, k + 1, max(1, k - ns + 1), k, w)
        full = [s[0] if a is None else a] + s + [s[-1] if b is None else b]
        for m, v in enumerate(full): out[m * np_ + j] = v
    return out
def rob_weights(y, fit):
    n = len(y); r = [abs(a - b) for a, b in zip(y, fit)]; q = sorted(r); m = n // 2 + 1
    c = 3.0 * (q[m - 1] + q[n - m]); w = []
    for v in r: w.append(1.0 if v <= 0.001 * c else (1 - (v / c) ** 2) ** 2 if v <= 0.999 * c else 0.0)
    return w
def stl_full(y, np_, ns, nt, nl, dg, jp, ni, no):
    odd = lambda v: max(3, v) + (max(3, v) % 2 == 0)
    ns, nt, nl = odd(ns), odd(nt), odd(nl); np_ = max(2, np_); n = len(y)
    trend = [0.0] * n; season = [0.0] * n; rw = None
    for k in range(no + 1):
        for _ in range(ni):
            c = stl_cycle([a - b for a, b in zip(y, trend)], np_, ns, dg[0], jp[0], rw)
            l = lo_smooth(_ma(_ma(_ma(c, np_), np_), 3), nl, dg[2], jp[2], None)
            season = [c[np_ + i] - l[i] for i in range(n)]
            trend = lo_smooth([a - b for a, b in zip(y, season)], nt, dg[1], jp[1], rw)
        if k < no: rw = rob_weights(y, [a + b for a, b in zip(season, trend)])
    return season, trend, rw or [1.0] * n
_stlc = {}
def _stl(n, y, a):
    key = (n, tuple(_l(y, n)), tuple(int(v) for v in a))
    if key not in _stlc:
        if len(_stlc) > 30: _stlc.clear()
        p, ns, nt, nl, d1, d2, d3, j1, j2, j3, ni, no = key[2]
        _stlc[key] = stl_full(list(key[1]), p, ns, nt, nl, (d1, d2, d3), (j1, j2, j3), ni, no)
    return _stlc[key]
def stlS(n, y, *a): return _stl(n, y, a[:-1])[0][int(a[-1])]
def stlT(n, y, *a): return _stl(n, y, a[:-1])[1][int(a[-1])]
def stlR(n, y, *a): return _stl(n, y, a[:-1])[2][int(a[-1])]
_sm = {}
def _smem(k, f):
    if k not in _sm:
        if len(_sm) > 60: _sm.clear()
        _sm[k] = f()
    return _sm[k]
def loS_(n, y, uw, rw, ln, dg, jp, i):
    n = int(n); yy = _l(y, n); w = _l(rw, n) if uw else None
    return _smem(('s', tuple(yy), tuple(w) if w else None, ln, dg, jp), lambda: lo_smooth(yy, int(ln), int(dg), int(jp), w))[int(i)]
def cycS(n, y, uw, rw, np_, ns, dg, jp, i):
    n = int(n); yy = _l(y, n); w = _l(rw, n) if uw else None
    return _smem(('c', tuple(yy), tuple(w) if w else None, np_, ns, dg, jp), lambda: stl_cycle(yy, int(np_), int(ns), int(dg), int(jp), w))[int(i)]
def robW(n, y, fit, i):
    n = int(n); a, b = _l(y, n), _l(fit, n)
    return _smem(('w', tuple(a), tuple(b)), lambda: rob_weights(a, b))[int(i)]
# ---------------------------------------------------------------- Friedman's super smoother, from its definition
def _run_lines(x, y, w, span, iper, vs, cv):
    """local straight lines over windows of n*span samples; cv: also the absolute cross-validated residuals"""
    n = len(x); k = max(2, int(span * 0.5 * n + 0.5)); out = []; res = []
    for j in range(n):
        if iper == 2: idx = [((j + d) % n, (j + d) // n) for d in range(-k, k + 1)]
        else:
            m = min(2 * k + 1, n); lo = min(max(0, j - k), n - m); idx = [(i, 0) for i in range(lo, lo + m)]
        sw = sum(w[i] for i, _ in idx)
        xm = sum(w[i] * (x[i] + o) for i, o in idx) / sw; ym = sum(w[i] * y[i] for i, _ in idx) / sw
        vx = sum(w[i] * (x[i] + o - xm) ** 2 for i, o in idx); cx = sum(w[i] * (x[i] + o - xm) * (y[i] - ym) for i, o in idx)
        s = ym + (cx / vx * (x[j] - xm) if vx > vs else 0.0); out.append(s)
        if cv:
            a = 1 - w[j] * (1 / sw + ((x[j] - xm) ** 2 / vx if vx > vs else 0.0))
            res.append(abs(y[j] - s) / a if a > 0 else (res[-1] if res else 0.0))
    j = 0
    while j < n:
        e = j
        while e + 1 < n and x[e + 1] <= x[e]: e += 1
        if e > j:
            v = sum(w[i] * out[i] for i in range(j, e + 1)) / sum(w[j:e + 1]); out[j:e + 1] = [v] * (e + 1 - j)
        j = e + 1
    return out, res
def supsm(x, y, w, iper, span, alpha):
    n = len(x); SP = (0.05000000074505806, 0.20000000298023224, 0.5)      # single-precision constants
    if x[-1] <= x[0]: return [sum(a * b for a, b in zip(w, y)) / sum(w)] * n
    i, j = n // 4, 3 * (n // 4)
    while x[j - 1] - x[i - 1] <= 0: j = min(n, j + 1); i = max(1, i - 1)
    vs = (0.0010000000474974513 * (x[j - 1] - x[i - 1])) ** 2
    if iper == 2 and (x[0] < 0 or x[-1] > 1): iper = 1
    if span > 0: return _run_lines(x, y, w, span, iper, vs, False)[0]
    sm = []; rs = []
    for s in SP:
        a, r = _run_lines(x, y, w, s, iper, vs, True); sm.append(a); rs.append(_run_lines(x, r, w, SP[1], iper, vs, False)[0])
    best = []
    for t in range(n):
        m = min(rs[c][t] for c in range(3)); b = SP[[rs[c][t] for c in range(3)].index(m)]
        if 0 < alpha <= 10 and 0 < m < rs[2][t]: b += (SP[2] - b) * max(1.0000000116860974e-07, m / rs[2][t]) ** (10 - alpha)
        best.append(b)
    b = _run_lines(x, best, w, SP[1], iper, vs, False)[0]; z = []
    for t in range(n):
        v = min(max(b[t], SP[0]), SP[2]); f = v - SP[1]
        if f >= 0: f /= SP[2] - SP[1]; z.append((1 - f) * sm[1][t] + f * sm[2][t])
        else: f = -f / (SP[1] - SP[0]); z.append((1 - f) * sm[1][t] + f * sm[0][t])
    return _run_lines(x, z, w, SP[0], iper, vs, False)[0]
def supS(n, x, y, uw, w, iper, span, alpha, i):
    n = int(n); a, b = _l(x, n), _l(y, n); c = _l(w, n) if uw else [1.0] * n
    return _smem(('p', tuple(a), tuple(b), tuple(c), iper, span, alpha), lambda: supsm(a, b, c, int(iper), span, alpha))[int(i)]
# ---------------------------------------------------------------- several seasonal periods
def stl_def(y, f, sw):
    n = len(y); odd = lambda v: v + (v % 2 == 0); c = lambda v: -(-v // 10)
    tw = odd(math.ceil(1.5 * f / (1.0 - 1.5 / sw))); lw = odd(f)
    return stl_full(y, f, sw, tw, lw, (0, 1, 1), (c(sw), c(tw), c(lw)), 2, 0)[:2]
def mstl_(y, fs, sw, it):
    n = len(y); fs = [f for f in fs if f < n // 2]; S = [[0.0] * n for _ in fs]; T = None
    if not fs: return [], supsm([float(i) for i in range(n)], y, [1.0] * n, 1, 0.0, -1.0)
    for _ in range(it):
        for k, f in enumerate(fs):
            S[k], T = stl_def([y[i] - sum(S[m][i] for m in range(len(fs)) if m != k) for i in range(n)], f, sw)
    return S, T
def _ms(N, x, sw, it, nf, f):
    y = _l(x, N); fs = [int(v) for v in _l(f, nf)]
    return _smem(('m', tuple(y), int(sw), int(it), tuple(fs)), lambda: mstl_(y, fs, int(sw), int(it)))
def msS(N, x, sw, it, nf, f, j, i): return _ms(N, x, sw, it, nf, f)[0][int(j)][int(i)]
def msT(N, x, sw, it, nf, f, j, i): return _ms(N, x, sw, it, nf, f)[1][int(i)]
def seaStr(N, x, nf, f, j):
    S, T = _ms(N, x, 13, 2, nf, f); y = _l(x, N); n = int(N); j = int(j)
    r = [y[i] - T[i] - sum(s[i] for s in S) for i in range(n)]; v = lambda a: sum((q - sum(a) / n) ** 2 for q in a) / n
    return max(0.0, min(1.0, 1 - v(r) / v([a + b for a, b in zip(r, S[j])])))

def nsing(m, n, A):
    import numpy as np
    M = np.array(_l(A, m * n)).reshape(m, n)
    if not np.all(np.isfinite(M)): return 0
    s = np.linalg.svd(M, compute_uv=False)
    return 1 if s[-1] > 1e-3 * s[0] and s[-1] > 1e-3 else 0
def invM(n, A, k):
    import numpy as np
    M = np.array(_l(A, n * n)).reshape(n, n)
    try: return float(np.linalg.inv(M).reshape(-1)[int(k)])
    except np.linalg.LinAlgError: return float('nan')
def mInv(n, A, ip, k):
    import numpy as np
    M = np.array(_l(A, n * n)).reshape(n, n); L = np.tril(M, -1) + np.eye(n); U = np.triu(M)
    P = np.zeros((n, n))
    for i in range(n): P[i, int(ip[i])] = 1
    try: return float((np.linalg.inv(U) @ np.linalg.inv(L) @ P).reshape(-1)[int(k)])
    except np.linalg.LinAlgError: return float('nan')

# ---- multiple regression, everything the regression object reports: beta, lower, upper, stdErr (p each), sigma, its
# interval, r2, r2adj, TSS, ESS, RSS, dfESS, dfRSS, F, p, loglik, aic, bic, aicc, covariance matrix, residuals
@functools.lru_cache(64)
def _reg(N, p, ic, alpha, x, y):
    from scipy import stats as ST
    X = [[1.0] * N] * ic + [x[i * N:(i + 1) * N] for i in range(p - ic)]
    X = _np.array(X, dtype=float).reshape(p, N).T; Y = _np.array(y, dtype=float)
    b = _np.linalg.lstsq(X, Y, rcond=None)[0] if p else _np.zeros(0)
    fit = X @ b; e = Y - fit; rss = float(e @ e); df = N - p
    s2 = rss / df; V = s2 * _np.linalg.inv(X.T @ X) if p else _np.zeros((0, 0)); se = _np.sqrt(_np.diag(V))
    tq = float(ST.t.ppf(1 - alpha / 2, df))
    ess = float(fit @ fit) - (N * float(Y.mean()) ** 2 if ic else 0); tss = rss + ess
    r2 = ess / tss; d1 = p - ic
    F = (ess / d1) / (rss / df) if d1 else -1.0; P = float(ST.f.sf(F, d1, df)) if d1 else -1.0
    ll = -N / 2 * (math.log(2 * math.pi) + math.log(rss / N) + 1)
    aic = -2 * ll + 2 * p
    sc = [s2, df * s2 / float(ST.chi2.ppf(1 - alpha / 2, df)), df * s2 / float(ST.chi2.ppf(alpha / 2, df)), r2, 1 - (1 - r2) * (N - ic) / df,
          tss, ess, rss, d1, df, F, P, ll, aic, -2 * ll + math.log(N) * p, aic + 2 * d1 * (N / (N - d1 - 1) - 1)]
    return [float(v) for v in list(b) + list(b - tq * se) + list(b + tq * se) + list(se) + sc + list(V.ravel()) + list(e)], b, V, s2
def regO(N, p, ic, alpha, x, y, k): return _reg(N, p, ic, alpha, tuple(x), tuple(y))[0][k]
def regFit(N, p, ic, x, y, a, k):
    _, b, V, s2 = _reg(N, p, ic, 0.05, tuple(x), tuple(y))
    a = _np.array([1.0] * ic + list(a))
    return float(a @ b) if k == 0 else float(a @ V @ a) + (s2 if k == 2 else 0)
# ---- unit-root tests (tseries / urca formulas), numbers of differences
def _ols(cols, y):
    y = _np.array(y, float); n = len(y); p = len(cols)
    X = _np.array(cols, float).reshape(p, n).T
    b = _np.linalg.lstsq(X, y, rcond=None)[0] if p else _np.zeros(0)
    e = y - X @ b; rss = float(e @ e)
    se = _np.sqrt(_np.diag(rss / (n - p) * _np.linalg.inv(X.T @ X))) if p else b
    ll = -n / 2 * (math.log(2 * math.pi) + math.log(rss / n) + 1)
    return dict(b=b, se=se, e=e, rss=rss, df=n - p, aic=-2 * ll + 2 * p, bic=-2 * ll + math.log(n) * p)
def _bart(u, l): # Bartlett long-run variance
    n = len(u)
    return float(u @ u) / n + 2 / n * sum((1 - i / (l + 1)) * float(u[i:] @ u[:n - i]) for i in range(1, l + 1))
def _lag(n, short): return int((4 if short == 1 else 12) * (n / 100) ** 0.25)
_DF = _np and _np.array([-4.38, -4.15, -4.04, -3.99, -3.98, -3.96, -3.95, -3.80, -3.73, -3.69, -3.68, -3.66, -3.60, -3.50, -3.45, -3.43, -3.42, -3.41, -3.24, -3.18, -3.15, -3.13, -3.13, -3.12,
    -1.14, -1.19, -1.22, -1.23, -1.24, -1.25, -0.80, -0.87, -0.90, -0.92, -0.93, -0.94, -0.50, -0.58, -0.62, -0.64, -0.65, -0.66, -0.15, -0.24, -0.28, -0.31, -0.32, -0.33]).reshape(8, 6)
_ZA = _np and _np.array([-22.5, -25.7, -27.4, -28.4, -28.9, -29.5, -19.9, -22.4, -23.6, -24.4, -24.8, -25.1, -17.9, -19.8, -20.7, -21.3, -21.5, -21.8, -15.6, -16.8, -17.5, -18.0, -18.1, -18.3,
    -3.66, -3.71, -3.74, -3.75, -3.76, -3.77, -2.51, -2.60, -2.62, -2.64, -2.65, -2.66, -1.53, -1.66, -1.73, -1.78, -1.78, -1.79, -0.43, -0.65, -0.75, -0.82, -0.84, -0.87]).reshape(8, 6)
def _ptab(tab, n, stat):
    row = [float(_np.interp(n, [25, 50, 100, 250, 500, 100000], tab[i])) for i in range(8)]
    return float(_np.interp(stat, row, [0.01, 0.025, 0.05, 0.10, 0.90, 0.95, 0.975, 0.99]))
@functools.lru_cache(64)
def _urdf(y, N, k):
    lag = k + 1; z = _np.diff(y); n = N - 1; Y = z[k:]; m = len(Y)
    cols = [[1.0] * m, y[lag - 1:N - 1], list(range(lag, n + 1))] + [list(z[k - i:n - i]) for i in range(1, k + 1)]
    f = _ols(cols, Y)
    st = float(f['b'][1] / f['se'][1])
    return st, _ptab(_DF, n, st)
def urDF(y, N, k, w): return _urdf(tuple(y), N, k)[w]
def urKlag(N): return int((N - 1.0) ** (1.0 / 3.0))
@functools.lru_cache(64)
def _urdf2(y, N, typ, lags, sel):
    z = _np.diff(y); n = N - 1; Y = z[lags:]; m = len(Y)
    dl = [list(z[lags - i:n - i]) for i in range(1, lags + 1)]; yl = list(y[lags:N - 1]); one = [1.0] * m; tt = list(range(lags + 1, n + 1))
    base = [[yl], [one, yl], [one, yl, tt]][typ]
    L = lags
    if lags > 0 and sel > 0:
        cr = [_ols(base + dl[:i], Y)['aic' if sel == 1 else 'bic'] for i in range(1, lags + 1)]
        L = 1 + cr.index(min(cr))
    f = _ols(base + dl[:L], Y); k = 0 if typ == 0 else 1
    st = [float(f['b'][k] / f['se'][k])]; sc = f['rss'] / f['df']
    def phi(cols): g = _ols(cols, Y); return (g['rss'] - f['rss']) / (g['df'] - f['df']) / sc
    if typ >= 1: st.append(phi(dl[:L]))
    if typ == 2: st.append(phi([one] + dl[:L]))
    r = 0 if n < 25 else 1 if n < 50 else 2 if n < 100 else 3 if n < 250 else 4 if n < 500 else 5
    T1 = [[-2.66, -1.95, -1.60], [-2.62, -1.95, -1.61], [-2.60, -1.95, -1.61], [-2.58, -1.95, -1.62], [-2.58, -1.95, -1.62], [-2.58, -1.95, -1.62]]
    T2 = [[-3.75, -3.00, -2.63], [-3.58, -2.93, -2.60], [-3.51, -2.89, -2.58], [-3.46, -2.88, -2.57], [-3.44, -2.87, -2.57], [-3.43, -2.86, -2.57]]
    T3 = [[-4.38, -3.60, -3.24], [-4.15, -3.50, -3.18], [-4.04, -3.45, -3.15], [-3.99, -3.43, -3.13], [-3.98, -3.42, -3.13], [-3.96, -3.41, -3.12]]
    P1 = [[7.88, 5.18, 4.12], [7.06, 4.86, 3.94], [6.70, 4.71, 3.86], [6.52, 4.63, 3.81], [6.47, 4.61, 3.79], [6.43, 4.59, 3.78]]
    P2 = [[8.21, 5.68, 4.67], [7.02, 5.13, 4.31], [6.50, 4.88, 4.16], [6.22, 4.75, 4.07], [6.15, 4.71, 4.05], [6.09, 4.68, 4.03]]
    P3 = [[10.61, 7.24, 5.91], [9.31, 6.73, 5.61], [8.73, 6.49, 5.47], [8.43, 6.49, 5.47], [8.34, 6.30, 5.36], [8.27, 6.25, 5.34]]
    cv = [T1[r], T2[r] + P1[r], T3[r] + P2[r] + P3[r]][typ]
    return st, cv
def urDF2(y, N, typ, lags, sel, w): return _urdf2(tuple(y), N, typ, lags, sel)[0][w]
def urDF2c(N, typ, lags, w):
    return _urdf2(tuple(math.sin(i * i) + i for i in range(N)), N, typ, lags, 0)[1][w]
def _kpss(y, N, trend, l):
    e = _ols([[1.0] * N] + ([list(range(1, N + 1))] if trend else []), y)['e']
    st = float(_np.sum(_np.cumsum(e) ** 2)) / N ** 2 / _bart(e, l)
    tab = [0.216, 0.176, 0.146, 0.119] if trend else [0.739, 0.574, 0.463, 0.347]
    return st, float(_np.interp(st, tab[::-1], [0.10, 0.05, 0.025, 0.01]))
def urKpss(y, N, trend, l, w): return _kpss(y, N, trend, l)[w]
def urLag(n, short, has, k): return k if has and k > 0 else _lag(n, short)
def _pp(y, N, ta, l):
    n = N - 1; yt = y[1:]; y1 = _np.array(y[:n], float); ix = _np.arange(1, n + 1)
    f = _ols([[1.0] * n, ix - n / 2, y1], yt); e = f['e']; s2 = f['rss'] / n; sl = _bart(e, l)
    s1 = float(y1 @ ix); s0 = float(y1.sum())
    dx = n ** 2 * (n ** 2 - 1) * float(y1 @ y1) / 12 - n * s1 ** 2 + n * (n + 1) * s1 * s0 - n * (n + 1) * (2 * n + 1) * s0 ** 2 / 6
    a = float(f['b'][2])
    if ta: st = math.sqrt(s2 / sl) * (a - 1) / float(f['se'][2]) - n ** 3 / (4 * math.sqrt(3) * math.sqrt(dx) * math.sqrt(sl)) * (sl - s2)
    else: st = n * (a - 1) - n ** 6 / (24 * dx) * (sl - s2)
    return st, _ptab(_DF if ta else _ZA, n, st)
def urPP(y, N, ta, l, w): return _pp(y, N, ta, l)[w]
def _pp2(x, N, tau, trend, l):
    n = N - 1; y = _np.array(x[1:], float); yl = list(x[:n]); ix = _np.arange(1, n + 1)
    f = _ols([[1.0] * n, yl] + ([ix - n / 2] if trend else []), y); e = f['e']; s = f['rss'] / n; sig = _bart(e, l)
    ybar = float(((y - y.mean()) ** 2).sum()) / n ** 2; yy = float(y @ y) / n ** 2; mty = n ** -2.5 * float(ix @ y); my = n ** -1.5 * float(y.sum())
    lam = .5 * (sig - s); lp = lam / sig; t0 = float(f['b'][0] / f['se'][0]); a = float(f['b'][1])
    if trend:
        M = (1 - n ** -2.0) * yy - 12 * mty ** 2 + 12 * (1 + 1 / n) * mty * my - (4 + 6 / n + 2 / n ** 2) * my ** 2
        aux = [math.sqrt(s / sig) * t0 - lp * math.sqrt(sig) * my / (math.sqrt(M) * math.sqrt(M + my ** 2)),
               math.sqrt(s / sig) * float(f['b'][2] / f['se'][2]) - lp * math.sqrt(sig) * (.5 * my - mty) / (math.sqrt(M / 12) * math.sqrt(ybar))]
        den = M; cv = [-3.9638 - 8.353 / n - 47.44 / n ** 2, -3.4126 - 4.039 / n - 17.83 / n ** 2, -3.1279 - 2.418 / n - 7.58 / n ** 2]
    else:
        aux = [math.sqrt(s / sig) * t0 - lp * math.sqrt(sig) * my / (math.sqrt(yy) * math.sqrt(ybar)), 0.0]
        den = ybar; cv = [-3.4335 - 5.999 / n - 29.25 / n ** 2, -2.8621 - 2.738 / n - 8.36 / n ** 2, -2.5671 - 1.438 / n - 4.48 / n ** 2]
    st = math.sqrt(s / sig) * (a - 1) / float(f['se'][1]) - lp * math.sqrt(sig) / math.sqrt(den) if tau else n * (a - 1) - lam / den
    return [st] + aux + cv
def urPP2(x, N, tau, trend, l, w): return _pp2(x, N, tau, trend, l)[w]
def _p3(cv, st): return float(_np.interp(st, cv, [0.01, 0.05, 0.10]))
def _const(x): return all(b == a for a, b in zip(x, x[1:]))
def statT(x, N, test, trend, alpha):
    if test == 0:
        k = int(3 * math.sqrt(N) / 13); return int(_kpss(x, N, trend, k if k > 0 else _lag(N, 1))[1] < alpha)
    if test == 1:
        st, cv = _urdf2(tuple(x), N, 1 + trend, 1, 0); return int(_p3(cv[:3], st[0]) > alpha)
    r = _pp2(x, N, 1, trend, _lag(N - 1, 1)); return int(_p3(r[3:], r[0]) > alpha)
def nDiffs(x, N, test, trend, alpha, mx):
    d = 0; y = list(x); alpha = min(max(alpha, 0.01), 0.1)
    while not _const(y) and d < mx and statT(y, len(y), test, trend, alpha):
        y = [b - a for a, b in zip(y, y[1:])]; d += 1
    return d
def nsDiffs(x, N, f, mx):
    d = 0; y = list(x)
    if f <= 1: return 0
    while not _const(y) and d < mx and (seaStr(len(y), y, 1, [f], 0) if 2 * f < len(y) - len(y) % 2 else 0) > 0.64:
        y = [y[i + f] - y[i] for i in range(len(y) - f)]; d += 1
    return d
