"""Symbolic array contents: total functions Int -> value, built from base arrays by (block) updates."""
from term import *
import term as tm

class Arr:
    __slots__ = ()
class ABase(Arr):
    __slots__ = ('arr',)
    def __init__(s, arr): s.arr = arr
    def __repr__(s): return s.arr.name
class AFun(Arr):
    """everywhere body[x]"""
    __slots__ = ('x', 'body')
    def __init__(s, x, body): s.x = x; s.body = body
    def __repr__(s): return 'fun %s. %s' % (s.x, s.body)
class AStore(Arr):
    __slots__ = ('base', 'i', 'v')
    def __init__(s, base, i, v): s.base = base; s.i = i; s.v = v
    def __repr__(s): return '%r{%s:=%s}' % (s.base, s.i, s.v)
class ALam(Arr):
    """cells lo<=x<hi hold body"""
    __slots__ = ('base', 'lo', 'hi', 'x', 'body')
    def __init__(s, base, lo, hi, x, body): s.base = base; s.lo = lo; s.hi = hi; s.x = x; s.body = body
    def __repr__(s): return '%r{%s in [%s,%s) := %s}' % (s.base, s.x, s.lo, s.hi, s.body)
class ABox(Arr):
    """cells off + r*p + c, rlo<=r<rhi, clo(r)<=c<chi(r)   (0<=clo, chi<=p for rows in range)  hold body(r,c)"""
    __slots__ = ('base', 'off', 'p', 'r', 'rlo', 'rhi', 'c', 'clo', 'chi', 'body')
    def __init__(s, base, off, p, r, rlo, rhi, c, clo, chi, body):
        s.base = base; s.off = off; s.p = p; s.r = r; s.rlo = rlo; s.rhi = rhi
        s.c = c; s.clo = clo; s.chi = chi; s.body = body
    def __repr__(s): return '%r{%s+%s*%s+%s, %s in [%s,%s), %s in [%s,%s) := %s}' % (
        s.base, s.off, s.r, s.p, s.c, s.r, s.rlo, s.rhi, s.c, s.clo, s.chi, s.body)
class AIte(Arr):
    __slots__ = ('c', 'a', 'b')
    def __init__(s, c, a, b): s.c = c; s.a = a; s.b = b
    def __repr__(s): return 'ite(%s, %r, %r)' % (s.c, s.a, s.b)

class NoDec:
    def __call__(self, c): return c is TRUE
    def known(self, c):
        if self(c): return True
        if self(not_(c)): return False
        return None
    def assume(self, *cs):
        import contextlib
        return contextlib.nullcontext()
NODEC = NoDec()

def divmod_poly(t, p):
    """t = q*p + rest, dividing monomials syntactically (p a single monomial or a polynomial via leading monomial)"""
    if isconst(p):
        c = cval(p)
        if c == 0: return None
        q = {}; r = {}
        for m, k in pd(t).items():
            if isinstance(k, int) and isinstance(c, int):
                a, b = divmod(k, c) if c > 0 else (0, k)
                if m == ():
                    if a: q[m] = a
                    if b: r[m] = b
                elif b == 0: q[m] = a
                else: r[m] = k
            else: return None
        return from_pd(q), from_pd(r)
    pp = pd(p)
    # leading monomial of p: highest degree
    lm = max(pp, key=lambda m: (sum(e for a, e in m), [(a.id, e) for a, e in m]))
    lc = pp[lm]
    q = ZERO; t0 = t
    for _ in range(64):
        hit = None
        for m, k in pd(t0).items():
            d = dict(m)
            if all(d.get(a, 0) >= e for a, e in lm):
                if isinstance(k, int) and isinstance(lc, int) and k % lc == 0: hit = (m, k // lc)
                elif not (isinstance(k, int) and isinstance(lc, int)): return None
                if hit: break
        if not hit: break
        m, k = hit
        d = dict(m)
        for a, e in lm: d[a] -= e
        f = from_pd({tuple((a, e) for a, e in sorted(d.items(), key=lambda z: z[0].id) if e): k})
        q = add(q, f); t0 = sub(t0, mul(f, p))
    return q, t0

def decompose(idx, p, dec, want_c=None):
    """idx = r*p + c with 0<=c<p provably; tries neighbours"""
    dm = divmod_poly(idx, p)
    if dm is None: return None
    q, c = dm
    for d in (0, 1, -1):
        r2 = sub(q, num(d)); c2 = add(c, scale(p, d))
        if dec(and_(le(ZERO, c2), lt(c2, p))): return r2, c2
    # the rest may mention p with other monomials in c > p ... give up
    return None

def aread(A, i, dec):
    while True:
        if isinstance(A, ABase): return read(A.arr, i)
        if isinstance(A, AFun): return tm.subst(A.body, {A.x: i}, dec=dec)
        if isinstance(A, AStore):
            c = eq(A.i, i)
            k = dec.known(c)
            if k is True: return A.v
            if k is False: A = A.base; continue
            return mkite(c, lambda d: A.v, lambda d: aread(A.base, i, d), dec)
        if isinstance(A, ALam):
            c = and_(le(A.lo, i), lt(i, A.hi))
            k = dec.known(c)
            if k is False: A = A.base; continue
            if k is True: return tm.subst(A.body, {A.x: i}, dec=dec)
            return mkite(c, lambda d: tm.subst(A.body, {A.x: i}, dec=d), lambda d: aread(A.base, i, d), dec)
        if isinstance(A, ABox):
            rel = sub(i, A.off)
            rc = decompose(rel, A.p, dec)
            if rc is None:
                rc = (tdiv(rel, A.p), tmod(rel, A.p))
                if not dec(le(ZERO, rel)):
                    # below the block: guard explicitly
                    pass
            r, c = rc
            m = {A.r: r}
            clo = tm.subst(A.clo, m); chi = tm.subst(A.chi, m)
            g = and_(le(ZERO, rel), le(A.rlo, r), lt(r, A.rhi), le(clo, c), lt(c, chi)) \
                if rc[0].op == 'tdiv' else and_(le(A.rlo, r), lt(r, A.rhi), le(clo, c), lt(c, chi))
            k = dec.known(g)
            if k is False: A = A.base; continue
            B = A
            if k is True: return tm.subst(B.body, {B.r: r, B.c: c}, dec=dec)
            return mkite(g, lambda d: tm.subst(B.body, {B.r: r, B.c: c}, dec=d), lambda d: aread(B.base, i, d), dec)
        if isinstance(A, AIte):
            k = dec.known(A.c)
            if k is True: A = A.a; continue
            if k is False: A = A.b; continue
            return mkite(A.c, lambda d: aread(A.a, i, d), lambda d: aread(A.b, i, d), dec)
        f = getattr(A, 'f', None)
        if f is not None: return f(i)
        raise TypeError(A)

def mkite(c, fa, fb, dec):
    with dec.assume(c): a = fa(dec)
    with dec.assume(not_(c)): b = fb(dec)
    return ite(c, a, b)

def asubst(A, m, arr, dec, memo=None):
    """substitute variables / base arrays (arr: BaseArr -> Arr)"""
    if memo is None: memo = {}
    key = id(A)
    if key in memo: return memo[key][0]
    def rd(B):
        return lambda *idx: aread(B, idx[0], dec) if isinstance(B, Arr) else B(*idx)
    arrf = {a: rd(B) for a, B in (arr or {}).items()}
    def S(t): return tm.subst(t, m, arrf, dec)
    if isinstance(A, ABase):
        r = A
        if arr and A.arr in arr:
            r = arr[A.arr]
    elif isinstance(A, AFun):
        x = fresh('x'); r = AFun(x, S(tm.subst(A.body, {A.x: x})))
    elif isinstance(A, AStore):
        r = AStore(asubst(A.base, m, arr, dec, memo), S(A.i), S(A.v))
    elif isinstance(A, ALam):
        x = fresh('x'); lo = S(A.lo); hi = S(A.hi)
        with dec.assume(le(lo, x), lt(x, hi)):
            body = tm.subst(tm.subst(A.body, {A.x: x}), m, arrf, dec)
        r = ALam(asubst(A.base, m, arr, dec, memo), lo, hi, x, body)
    elif isinstance(A, ABox):
        rr = fresh('r'); c = fresh('c')
        mm = {A.r: rr, A.c: c}
        off = S(A.off); p = S(A.p); rlo = S(A.rlo); rhi = S(A.rhi)
        clo = S(tm.subst(A.clo, mm)); chi = S(tm.subst(A.chi, mm))
        with dec.assume(le(rlo, rr), lt(rr, rhi), le(clo, c), lt(c, chi)):
            body = tm.subst(tm.subst(A.body, mm), m, arrf, dec)
        r = ABox(asubst(A.base, m, arr, dec, memo), off, p, rr, rlo, rhi, c, clo, chi, body)
    elif isinstance(A, AIte):
        r = AIte(S(A.c), asubst(A.a, m, arr, dec, memo), asubst(A.b, m, arr, dec, memo))
    else: raise TypeError(A)
    memo[key] = (r, A)
    return r

def afv(A):
    out = set()
    st = [A]
    while st:
        B = st.pop()
        if isinstance(B, ABase): out.add(B.arr)
        elif isinstance(B, AFun): out |= B.body.fv - {B.x}
        elif isinstance(B, AStore): out |= B.i.fv | B.v.fv; st.append(B.base)
        elif isinstance(B, ALam):
            out |= B.lo.fv | B.hi.fv | (B.body.fv - {B.x}); st.append(B.base)
        elif isinstance(B, ABox):
            out |= B.off.fv | B.p.fv | B.rlo.fv | B.rhi.fv | ((B.clo.fv | B.chi.fv | B.body.fv) - {B.r, B.c}); st.append(B.base)
        elif isinstance(B, AIte):
            out |= B.c.fv; st.append(B.a); st.append(B.b)
    return out

def chain(A):
    """list of nodes from the newest write down to (excluding) the root, and the root"""
    out = []
    while isinstance(A, (AStore, ALam, ABox)):
        out.append(A); A = A.base
    return out, A

def same_idx(a, b, dec):
    return a is b or dec(eq(a, b))

def amerge(c, A, B, dec):
    """content that is A if c else B"""
    if A is B: return A
    if c is TRUE: return A
    if c is FALSE: return B
    ca, ra = chain(A); cb, rb = chain(B)
    # common ancestor
    idb = {id(x): n for n, x in enumerate(cb)}
    ai = bi = None
    for n, x in enumerate(ca):
        if id(x) in idb: ai, bi, anc = n, idb[id(x)], x; break
    if ai is None:
        if ra is rb or (isinstance(ra, ABase) and isinstance(rb, ABase) and ra.arr is rb.arr):
            ai, bi, anc = len(ca), len(cb), ra
    if ai is not None:
        na, nb = ca[:ai], cb[:bi]
        if all(isinstance(x, AStore) for x in na + nb) and len(na) + len(nb) <= 12:
            idxs = []
            for x in list(reversed(na)) + list(reversed(nb)):
                if not any(same_idx(x.i, j, dec) for j in idxs): idxs.append(x.i)
            r = anc
            for j in idxs:
                v = mkite(c, lambda d: aread(A, j, d), lambda d: aread(B, j, d), dec)
                r = AStore(r, j, v)
            return r
        if len(na) == 1 and len(nb) == 1 and isinstance(na[0], ALam) and isinstance(nb[0], ALam) and \
                same_idx(na[0].lo, nb[0].lo, dec) and same_idx(na[0].hi, nb[0].hi, dec):
            return ALam(anc, na[0].lo, na[0].hi, na[0].x,
                        ite(c, na[0].body, tm.subst(nb[0].body, {nb[0].x: na[0].x})))
        if len(na) + len(nb) == 1:
            w = (na + nb)[0]; pos = bool(na)
            if isinstance(w, ALam):
                bd = mkite(c if pos else not_(c), lambda d: w.body, lambda d: aread(w.base, w.x, d), dec)
                return ALam(anc, w.lo, w.hi, w.x, bd)
            if isinstance(w, ABox):
                ix = add(w.off, mul(w.r, w.p), w.c)
                bd = mkite(c if pos else not_(c), lambda d: w.body, lambda d: aread(w.base, ix, d), dec)
                return ABox(anc, w.off, w.p, w.r, w.rlo, w.rhi, w.c, w.clo, w.chi, bd)
    return AIte(c, A, B)
