"""Hash-consed terms.  Numeric terms are polynomials over atoms (rational coefficients);
integers embed in reals.  Booleans are separate.  No floating point: doubles are reals."""
from fractions import Fraction
import itertools

class BaseArr:
    """an uninterpreted total function Int^ar -> (I|R|B)"""
    __slots__ = ('name', 'sort', 'ar', 'id')
    _n = itertools.count()
    def __init__(self, name, sort, ar=1):
        self.name = name; self.sort = sort; self.ar = ar; self.id = next(BaseArr._n)
    def __repr__(self): return self.name

class T:
    __slots__ = ('op', 'args', 'id', 'sort', 'fv', 'ht', '_pd')
    def __repr__(self): return show(self)
    def __lt__(self, o): raise TypeError("use lt()")

_tab = {}
_cnt = itertools.count()
EMPTY = frozenset()

def _fvof(args):
    s = None
    for a in args:
        if isinstance(a, T):
            f = a.fv
        elif isinstance(a, BaseArr):
            f = frozenset((a,))
        else:
            continue
        if f:
            if s is None or s is f: s = f
            elif not (f <= s): s = s | f
    return s or EMPTY

def mk(op, args, sort, fv=None, ht=None):
    key = (op, args, sort)
    t = _tab.get(key)
    if t is not None: return t
    t = T()
    t.op = op; t.args = args; t.sort = sort; t.id = next(_cnt); t._pd = None
    t.fv = _fvof(args) if fv is None else fv
    if ht is None:
        h = 0
        for a in args:
            if isinstance(a, T) and a.ht > h: h = a.ht
        t.ht = h
    else: t.ht = ht
    _tab[key] = t
    return t

TRUE = mk('true', (), 'B')
FALSE = mk('false', (), 'B')

def norm(c):
    if isinstance(c, int): return c
    if isinstance(c, Fraction):
        return c.numerator if c.denominator == 1 else c
    if isinstance(c, float):
        return norm(Fraction(repr(c)) if c == c and abs(c) != float('inf') else None)
    raise TypeError(c)

def num(c):
    c = norm(c)
    return mk('const', (c,), 'I' if isinstance(c, int) else 'R')
ZERO = num(0); ONE = num(1)

_fresh = itertools.count()
def var(name, sort='I'):
    t = mk('var', (name,), sort)
    if not t.fv: t.fv = frozenset((t,))
    return t
def fresh(name, sort='I'):
    return var('%s!%d' % (name, next(_fresh)), sort)
def bv(level, sort='I'):
    return mk('bv', (level,), 'I')

# ---------- polynomials
def pd(t):
    """dict mono -> coeff ; mono = tuple of (atom, exp) sorted by atom id"""
    if t._pd is not None: return t._pd
    if t.op == 'const':
        d = {(): t.args[0]} if t.args[0] != 0 else {}
    elif t.op == 'poly':
        d = dict(t.args[0])
    else:
        d = {((t, 1),): 1}
    t._pd = d
    return d

def _mkey(m):
    return tuple((a.id, e) for a, e in m[0])

def from_pd(d):
    if not d: return ZERO
    if len(d) == 1:
        (m, c), = d.items()
        if m == (): return num(c)
        if c == 1 and len(m) == 1 and m[0][1] == 1: return m[0][0]
    items = tuple(sorted(d.items(), key=_mkey))
    key = ('poly', (items,), None)
    t = _tab.get(key)
    if t is not None: return t
    isint = True
    fv = EMPTY; ht = 0
    for m, c in items:
        if not isinstance(c, int): isint = False
        for a, e in m:
            if a.sort != 'I': isint = False
            if a.ht > ht: ht = a.ht
            if not (a.fv <= fv): fv = fv | a.fv
    t = T(); t.op = 'poly'; t.args = (items,); t.id = next(_cnt)
    t.sort = 'I' if isint else 'R'; t.fv = fv; t.ht = ht; t._pd = dict(items)
    _tab[key] = t
    return t

def add(*ts):
    d = None
    for t in ts:
        if t is ZERO: continue
        p = pd(t)
        if d is None: d = dict(p); continue
        for m, c in p.items():
            v = d.get(m)
            if v is None: d[m] = c
            else:
                v = norm(v + c)
                if v == 0: del d[m]
                else: d[m] = v
    return from_pd(d) if d else ZERO

def scale(t, k):
    k = norm(k)
    if k == 0: return ZERO
    if k == 1: return t
    return from_pd({m: norm(c * k) for m, c in pd(t).items()})
def neg(t): return scale(t, -1)
def sub(a, b): return add(a, neg(b))

def mono_mul(m1, m2):
    if not m1: return m2
    if not m2: return m1
    d = {}
    for a, e in m1: d[a] = d.get(a, 0) + e
    for a, e in m2: d[a] = d.get(a, 0) + e
    # sqrt(x)*sqrt(x) handled by axioms, inv(x)*x is kept (x might be 0)
    return tuple(sorted(((a, e) for a, e in d.items() if e), key=lambda p: p[0].id))

MAXMONO = 400
def mul(*ts):
    d = {(): 1}
    for t in ts:
        p = pd(t)
        if not p: return ZERO
        if len(p) * len(d) > MAXMONO:
            # keep the factor opaque
            return mul(from_pd(d), opaque(t)) if len(p) > 1 else _mulbig(d, p)
        r = {}
        for m1, c1 in d.items():
            for m2, c2 in p.items():
                m = mono_mul(m1, m2); c = c1 * c2
                v = r.get(m)
                if v is None: r[m] = norm(c)
                else:
                    v = norm(v + c)
                    if v == 0: del r[m]
                    else: r[m] = v
        d = r
    return from_pd(d)
def _mulbig(d, p):
    (m2, c2), = p.items()
    return from_pd({mono_mul(m, m2): norm(c * c2) for m, c in d.items()})
def opaque(t):
    if t.op != 'poly': return t
    return mk('opq', (t,), t.sort)
def unopaque(t): return t.args[0] if t.op == 'opq' else t

def powi(t, n):
    r = ONE
    for _ in range(n): r = mul(r, t)
    return r

def lead(t):
    items = sorted(pd(t).items(), key=_mkey)
    return items[-1][1]

def inv(t):
    if t.op == 'const':
        c = t.args[0]
        if c == 0: return mk('inv', (ZERO,), 'R')
        return num(Fraction(1) / c)
    p = pd(t)
    if len(p) == 1:
        (m, c), = p.items()
        r = num(Fraction(1) / c)
        for a, e in m:
            ia = a.args[0] if a.op == 'inv' else mk('inv', (a,), 'R')
            r = mul(r, powi(ia, e))
        return r
    c = lead(t)
    return scale(mk('inv', (scale(t, Fraction(1) / c),), 'R'), Fraction(1) / c)

def div(a, b):
    if a is ZERO: return ZERO if b.op == 'const' and b is not ZERO else mul(a, inv(b))
    return mul(a, inv(b))

def isconst(t): return t.op == 'const'
def cval(t): return t.args[0]

# ---------- integer division (C semantics: truncation)
def tdiv(a, b):
    if isconst(a) and isconst(b) and cval(b) != 0:
        x, y = cval(a), cval(b)
        q = abs(x) // abs(y)
        return num(q if (x < 0) == (y < 0) else -q)
    if b is ONE: return a
    return mk('tdiv', (a, b), 'I')
def tmod(a, b):
    if isconst(a) and isconst(b) and cval(b) != 0:
        return sub(a, mul(b, tdiv(a, b)))
    if b is ONE: return ZERO
    if isconst(b) and isinstance(cval(b), int) and cval(b) > 1: return sub(a, mul(b, tdiv(a, b)))
    return mk('tmod', (a, b), 'I')
def trunc(a):
    if a.sort == 'I': return a
    if isconst(a):
        c = cval(a); return num(int(c))
    return mk('trunc', (a,), 'I')

def app(f, args, sort):
    args = tuple(args)
    return mk('app', (f,) + args, sort)

# ---------- booleans
def not_(a):
    if a is TRUE: return FALSE
    if a is FALSE: return TRUE
    if a.op == 'not': return a.args[0]
    if a.op == 'lt0':
        return le0(neg(a.args[0]))
    if a.op == 'le0':
        p = a.args[0]
        if p.sort == 'I': return le0(sub(ONE, p))
        return lt0(neg(p))
    return mk('not', (a,), 'B')

def and_(*xs):
    s = []
    seen = set()
    for x in xs:
        if x.op == 'and':
            ys = x.args
        else: ys = (x,)
        for y in ys:
            if y is TRUE or y in seen: continue
            if y is FALSE or not_(y) in seen: return FALSE
            seen.add(y); s.append(y)
    if not s: return TRUE
    if len(s) == 1: return s[0]
    s.sort(key=lambda t: t.id)
    return mk('and', tuple(s), 'B')
def or_(*xs):
    s = []
    seen = set()
    for x in xs:
        ys = x.args if x.op == 'or' else (x,)
        for y in ys:
            if y is FALSE or y in seen: continue
            if y is TRUE or not_(y) in seen: return TRUE
            seen.add(y); s.append(y)
    if not s: return FALSE
    if len(s) == 1: return s[0]
    s.sort(key=lambda t: t.id)
    return mk('or', tuple(s), 'B')
def implies(a, b): return or_(not_(a), b)
def iff(a, b):
    if a is b: return TRUE
    if a is TRUE: return b
    if b is TRUE: return a
    if a is FALSE: return not_(b)
    if b is FALSE: return not_(a)
    return and_(implies(a, b), implies(b, a))

def _canon(p, sign):
    """divide by |content|; sign=True also normalises the sign"""
    d = pd(p)
    cs = list(d.values())
    from math import gcd
    den = 1
    for c in cs:
        dd = c.denominator if isinstance(c, Fraction) else 1
        den = den * dd // gcd(den, dd)
    g = 0
    for m, c in d.items():
        g = gcd(g, int(abs(c * den)))
    k = Fraction(den, g)
    if sign:
        if lead(p) < 0: k = -k
    return scale(p, k)

def _intlike(p):
    return all(a.sort == 'I' for m in pd(p) for a, e in m)

def le0(p):
    if isconst(p): return TRUE if cval(p) <= 0 else FALSE
    if _intlike(p):
        # integer tightening
        from math import gcd, floor
        d = dict(pd(p)); c0 = d.pop((), 0)
        q = from_pd(d)
        qc = _canon(q, False)           # q = k * qc, k>0
        (m, c), = list(pd(qc).items())[:1]
        k = Fraction(d[m]) / c
        # k*qc + c0 <= 0  <=> qc <= -c0/k  <=> qc <= floor(-c0/k)
        b = Fraction(-c0) / k
        fl = b.numerator // b.denominator
        return mk('le0', (sub(qc, num(fl)),), 'B')
    return mk('le0', (_canon(p, False),), 'B')
def lt0(p):
    if isconst(p): return TRUE if cval(p) < 0 else FALSE
    if _intlike(p):
        den = 1
        for c in pd(p).values():
            if isinstance(c, Fraction): den = den * c.denominator
        return le0(add(scale(p, den), ONE))
    return mk('lt0', (_canon(p, False),), 'B')
def eq0(p):
    if isconst(p): return TRUE if cval(p) == 0 else FALSE
    q = _canon(p, True)
    if q.sort == 'I' or _intlike(q):
        from math import gcd
        g = 0
        c0 = 0
        for m, c in pd(q).items():
            if m == (): c0 = c
            else: g = gcd(g, int(c))
        if g > 1 and c0 % g != 0: return FALSE
    # x - ite(...) with constant branches etc. left to the solver
    return mk('eq0', (q,), 'B')

def le(a, b): return le0(sub(a, b))
def lt(a, b): return lt0(sub(a, b))
def ge(a, b): return le(b, a)
def gt(a, b): return lt(b, a)
def eq(a, b):
    if a is b: return TRUE
    if a.sort == 'B' or b.sort == 'B': return iff(a, b)
    return eq0(sub(a, b))
def ne(a, b): return not_(eq(a, b))

def ite(c, a, b):
    if c is TRUE: return a
    if c is FALSE: return b
    if a is b: return a
    if a.sort == 'B':
        return and_(or_(not_(c), a), or_(c, b))
    # strip nested
    if c.op == 'not' : return ite(c.args[0], b, a)
    nc = not_(c)
    if nc.id < c.id and nc.op in ('le0', 'lt0', 'and', 'or'):
        c, a, b = nc, b, a
        nc = not_(c)
    a = assume_in(a, c, nc); b = assume_in(b, nc, c)
    if a is b: return a
    # pull out common polynomial part
    pa, pb = pd(a), pd(b)
    if len(pa) + len(pb) > 2:
        com = {m: k for m, k in pa.items() if pb.get(m) == k}
        if com:
            return add(from_pd(com), ite(c, from_pd({m: k for m, k in pa.items() if m not in com}),
                                         from_pd({m: k for m, k in pb.items() if m not in com})))
    s = 'I' if a.sort == 'I' and b.sort == 'I' else 'R'
    return mk('ite', (c, a, b), s)

def assume_in(t, c, nc):
    """simplify ite atoms at the top of t whose condition is c or nc"""
    if t.op == 'ite':
        if t.args[0] is c: return t.args[1]
        if t.args[0] is nc: return t.args[2]
        return t
    if t.op == 'poly':
        hit = False
        for m, k in t.args[0]:
            for a, e in m:
                if a.op == 'ite' and (a.args[0] is c or a.args[0] is nc): hit = True
        if hit:
            r = ZERO
            for m, k in t.args[0]:
                x = num(k)
                for a, e in m:
                    x = mul(x, powi(assume_in(a, c, nc), e))
                r = add(r, x)
            return r
    return t

def imax(a, b): return ite(le(a, b), b, a)
def imin(a, b): return ite(le(a, b), a, b)
def fabs(a):
    if isconst(a): return num(abs(cval(a)))
    return ite(le(ZERO, a), a, neg(a))

def forall(vs, body):
    if body is TRUE: return TRUE
    vs = tuple(v for v in vs if v in body.fv)
    if not vs: return body
    if body.op == 'and':
        return and_(*[forall(vs, x) for x in body.args])
    if body.op == 'forall':
        return forall(vs + body.args[0], body.args[1])
    if body.op == 'or':
        fs = [x for x in body.args if x.op == 'forall']
        if len(fs) == 1:
            return forall(vs + fs[0].args[0], or_(*([x for x in body.args if x is not fs[0]] + [fs[0].args[1]])))
    t = mk('forall', (vs, body), 'B', fv=body.fv - frozenset(vs), ht=body.ht)
    return t
def exists(vs, body): return not_(forall(vs, not_(body)))

def read(arr, *idx):
    return mk('read', (arr,) + idx, arr.sort)

# ---------- sums
def split_mono(m, x):
    free = tuple((a, e) for a, e in m if x not in a.fv)
    dep = tuple((a, e) for a, e in m if x in a.fv)
    return free, dep
def mono_term(m, c=1):
    return from_pd({m: c})

def lin(t, x):
    """t = c*x + r with c a constant, x not in r: returns (c, r) or None"""
    c = 0; r = {}
    for m, k in pd(t).items():
        if len(m) == 1 and m[0][0] is x and m[0][1] == 1: c = k; continue
        if any(x in a.fv for a, e in m): return None
        r[m] = k
    return c, from_pd(r)
def linpoly(t, x):
    """t = c*x + r with c, r terms free of x, or None"""
    c = {}; r = {}
    for m, k in pd(t).items():
        inx = [(a, e) for a, e in m if x in a.fv]
        if not inx: r[m] = k; continue
        if len(inx) == 1 and inx[0][0] is x and inx[0][1] == 1:
            c[tuple((a, e) for a, e in m if a is not x)] = k
        else: return None
    return from_pd(c), from_pd(r)

def first_read_dir(t, x):
    """canonical orientation: sign of x in the index of the first (by array name) read depending on x"""
    best = None
    seen = set()
    stack = [t]
    while stack:
        u = stack.pop()
        if u in seen or x not in u.fv: continue
        seen.add(u)
        if u.op == 'read' and len(u.args) == 2:
            l = lin(u.args[1], x)
            if l and l[0] != 0:
                key = (u.args[0].name, u.args[0].id, -l[0])
                if best is None or key < best[0]: best = (key, l[0])
        elif u.op == 'app':
            for i, a in enumerate(u.args[1:]):
                if a.sort != 'I': continue
                l = lin(a, x)
                if l and l[0] != 0:
                    key = ('~' + u.args[0], i, -l[0])
                    if best is None or key < best[0]: best = (key, l[0])
        for a in (u.args if u.op != 'poly' else [z for m, k in u.args[0] for z, e in m]):
            if isinstance(a, T): stack.append(a)
            elif isinstance(a, tuple): pass
    return best[1] if best else 0

def clampn(n, dec=None):
    if isconst(n): return n if cval(n) > 0 else ZERO
    if dec:
        if dec(le(ZERO, n)): return n
        if dec(le(n, ZERO)): return ZERO
    return ite(le(ZERO, n), n, ZERO)

def _guard_split(cond, x):
    """cond about int var x -> ('le', e): x<=e ; ('ge', e): x>=e ; ('eq', e); else None"""
    if cond.op in ('le0', 'eq0'):
        l = lin(cond.args[0], x)
        if l is None or l[0] == 0 or cond.args[0].sort != 'I': return None
        c, r = l
        if c == 1:
            return ('le' if cond.op == 'le0' else 'eq', neg(r))
        if c == -1:
            return ('ge' if cond.op == 'le0' else 'eq', r)
    return None

def Sum(x, n, body, dec=None):
    """sum_{x=0}^{n-1} body   (empty when n<=0)"""
    if body is ZERO: return ZERO
    if isconst(n):
        k = cval(n)
        if k <= 0: return ZERO
        if k <= 2:
            return add(*[subst(body, {x: num(i)}) for i in range(k)])
    if dec and dec(le(n, ZERO)): return ZERO
    if x not in body.fv:
        return mul(clampn(n, dec), body)
    out = ZERO
    groups = {}
    for m, k in pd(body).items():
        free, dep = split_mono(m, x)
        if not dep:
            out = add(out, mul(clampn(n, dec), mono_term(m, k))); continue
        groups.setdefault(dep, []).append((free, k))
    for dep, lst in groups.items():
        coef = from_pd({f: k for f, k in lst})
        # ite splitting
        done = False
        for a, e in dep:
            if a.op == 'ite' and e == 1 and x in a.args[0].fv:
                rest = mono_term(tuple(p for p in dep if p[0] is not a))
                s = _ite_sum(x, n, a.args[0], mul(a.args[1], rest), mul(a.args[2], rest), dec)
                if s is not None:
                    out = add(out, mul(coef, s)); done = True; break
        if done: continue
        out = add(out, mul(coef, _sum_atom(x, n, mono_term(dep), dec)))
    return out

def SumR(x, lo, hi, body, dec=None):
    """sum_{x=lo}^{hi-1}"""
    y = fresh('s')
    return Sum(y, sub(hi, lo), subst(body, {x: add(y, lo)}), dec)

def _dmax(a, b, dec):
    if dec:
        if dec(le(a, b)): return b
        if dec(le(b, a)): return a
    return imax(a, b)
def _dmin(a, b, dec):
    if dec:
        if dec(le(a, b)): return a
        if dec(le(b, a)): return b
    return imin(a, b)

def _ite_sum(x, n, c, a, b, dec):
    if c.op == 'and':
        c1 = c.args[0]; rest = and_(*c.args[1:])
        return _ite_sum(x, n, c1, ite(rest, a, b), b, dec)
    if c.op == 'or':
        c1 = c.args[0]; rest = or_(*c.args[1:])
        return _ite_sum(x, n, c1, a, ite(rest, a, b), dec)
    if c.op == 'not':
        return _ite_sum(x, n, c.args[0], b, a, dec)
    g = _guard_split(c, x)
    if g is None: return None
    kind, e = g
    if kind == 'eq':
        s = Sum(x, n, b, dec)
        return add(s, ite(and_(le(ZERO, e), lt(e, n)), subst(sub(a, b), {x: e}), ZERO))
    if kind == 'le':      # x<=e : a else b
        k = _dmin(n, _dmax(add(e, ONE), ZERO, dec), dec) if not (a is ZERO) else None
        r = ZERO
        if a is not ZERO:
            r = add(r, Sum(x, _dmin(n, add(e, ONE), dec), a, dec))
        if b is not ZERO:
            r = add(r, SumR(x, _dmax(ZERO, add(e, ONE), dec), n, b, dec))
        return r
    else:
        r = ZERO
        if a is not ZERO: r = add(r, SumR(x, _dmax(ZERO, e, dec), n, a, dec))
        if b is not ZERO: r = add(r, Sum(x, _dmin(n, e, dec), b, dec))
        return r

def _sum_atom(x, n, body, dec):
    d = first_read_dir(body, x)
    if d < 0:
        y = fresh('s')
        body = subst(body, {x: sub(sub(n, ONE), y)}); x = y
        # after reversing, the body may have changed shape: re-split only if it is no longer one monomial
        if body.op == 'poly' and len(pd(body)) > 1: return _sum_nore(x, n, body, dec)
        if body is ZERO: return ZERO
    return _close(x, n, body)
def _sum_nore(x, n, body, dec):
    out = ZERO
    for m, k in pd(body).items():
        free, dep = split_mono(m, x)
        if not dep: out = add(out, mul(clampn(n, dec), mono_term(m, k))); continue
        out = add(out, mul(mono_term(free, k), _close(x, n, mono_term(dep))))
    return out
def _close(x, n, body):
    # pull out x-free factors again (reversal may have produced them)
    if body.op in ('poly',) :
        p = pd(body)
        if len(p) == 1:
            (m, k), = p.items()
            free, dep = split_mono(m, x)
            if (free or k != 1) and dep:
                return mul(mono_term(free, k), _close(x, n, mono_term(dep)))
    lvl = body.ht
    b = bv(lvl)
    cb = _rawsubst(body, {x: b})
    return mk('sum', (n, cb, lvl), 'I' if body.sort == 'I' else 'R', ht=lvl + 1)

def open_sum(s, x=None):
    """returns (x, n, body)"""
    n, cb, lvl = s.args
    if x is None: x = fresh('s')
    return x, n, _rawsubst_bv(cb, lvl, x)

def _rawsubst_bv(t, lvl, x):
    b = bv(lvl)
    return _rs(t, {b: x}, {}, bvmode=lvl)
def _rawsubst(t, m):
    return _rs(t, m, {}, None)

def _rs(t, m, memo, bvmode):
    """structural substitution that does not re-canonicalise sums (variables by variables / bvs)"""
    r = memo.get(t)
    if r is not None: return r
    if t in m: r = m[t]
    elif t.op in ('const', 'var', 'bv', 'true', 'false'): r = t
    elif bvmode is None and not any(k in t.fv for k in m): r = t
    elif bvmode is not None and t.ht == 0 and not _hasbv(t): r = t
    elif t.op == 'sum':
        n, cb, lvl = t.args
        n2 = _rs(n, m, memo, bvmode)
        # inner sums have levels < outer, so their bv never clashes
        cb2 = _rs(cb, m, memo, bvmode)
        r = mk('sum', (n2, cb2, lvl), t.sort, ht=lvl + 1)
    elif t.op == 'forall' and bvmode is None:
        vs, b = t.args
        m2 = {k: v for k, v in m.items() if k not in vs}
        if any(v in x.fv for x in m2.values() for v in vs):
            nv = tuple(fresh('q', v.sort) for v in vs)
            b = _rs(b, dict(zip(vs, nv)), {}, None); vs = nv
        r = forall(vs, _rs(b, m2, memo if len(m2) == len(m) and vs is t.args[0] else {}, None))
    else:
        r = rebuild(t, lambda u: _rs(u, m, memo, bvmode))
    memo[t] = r
    return r

_hb = {}
def _hasbv(t):
    r = _hb.get(t)
    if r is None:
        if t.op == 'bv': r = True
        elif t.op == 'poly': r = any(_hasbv(a) for m, c in t.args[0] for a, e in m)
        elif t.op == 'forall': r = _hasbv(t.args[1])
        else: r = any(_hasbv(a) for a in t.args if isinstance(a, T))
        _hb[t] = r
    return r

def rebuild(t, f):
    op = t.op
    if op == 'poly':
        d = None
        r = ZERO
        same = True
        acc = []
        for m, c in t.args[0]:
            fs = []
            ch = False
            for a, e in m:
                b = f(a)
                if b is not a: ch = True
                fs.append((b, e))
            acc.append((m, c, fs, ch))
            if ch: same = False
        if same: return t
        keep = {m: c for m, c, fs, ch in acc if not ch}
        parts = [from_pd(keep)]
        for m, c, fs, ch in acc:
            if not ch: continue
            x = num(c)
            for b, e in fs:
                x = mul(x, powi(b, e)) if e != 1 else mul(x, b)
            parts.append(x)
        return add(*parts)
    if op == 'read': return read(t.args[0], *[f(a) for a in t.args[1:]])
    if op == 'app': return app(t.args[0], [f(a) for a in t.args[1:]], t.sort)
    if op == 'ite': 
        c = f(t.args[0])
        if c is TRUE: return f(t.args[1])
        if c is FALSE: return f(t.args[2])
        return ite(c, f(t.args[1]), f(t.args[2]))
    if op == 'inv': return inv(f(t.args[0]))
    if op == 'opq':
        return opaque(f(t.args[0]))
    if op == 'tdiv': return tdiv(f(t.args[0]), f(t.args[1]))
    if op == 'tmod': return tmod(f(t.args[0]), f(t.args[1]))
    if op == 'trunc': return trunc(f(t.args[0]))
    if op == 'not': return not_(f(t.args[0]))
    if op == 'and': return and_(*[f(a) for a in t.args])
    if op == 'or': return or_(*[f(a) for a in t.args])
    if op == 'le0': return le0(f(t.args[0]))
    if op == 'lt0': return lt0(f(t.args[0]))
    if op == 'eq0': return eq0(f(t.args[0]))
    if op == 'forall':
        return forall(t.args[0], f(t.args[1]))
    raise NotImplementedError(op)

def subst(t, m, arr=None, dec=None, memo=None):
    """capture-avoiding substitution of variables (and base arrays through arr: BaseArr -> callable(idx...))"""
    if memo is None: memo = {}
    keys = frozenset(m.keys()) | (frozenset(arr.keys()) if arr else EMPTY)
    def go(t):
        if t.fv.isdisjoint(keys): return t
        r = memo.get(t)
        if r is not None: return r
        op = t.op
        if op == 'var': r = m.get(t, t)
        elif op == 'read':
            a = t.args[0]
            idx = [go(i) for i in t.args[1:]]
            if arr and a in arr: r = arr[a](*idx)
            else: r = read(a, *idx)
        elif op == 'sum':
            x, n, b = open_sum(t)
            r = Sum(x, go(n), go(b), dec)
        elif op == 'forall':
            vs, b = t.args
            nv = tuple(fresh('q', v.sort) for v in vs)
            b2 = _rawsubst(b, dict(zip(vs, nv)))
            r = forall(nv, go(b2))
        else:
            r = rebuild(t, go)
        memo[t] = r
        return r
    return go(t)

def subterms(ts, into_binders=False):
    seen = set(); out = []
    stack = list(ts)
    while stack:
        t = stack.pop()
        if t in seen: continue
        seen.add(t); out.append(t)
        if t.op == 'poly':
            for m, c in t.args[0]:
                for a, e in m: stack.append(a)
        elif t.op == 'forall':
            if into_binders: stack.append(t.args[1])
        elif t.op == 'sum':
            stack.append(t.args[0])
            if into_binders: stack.append(t.args[1])
        else:
            for a in t.args:
                if isinstance(a, T): stack.append(a)
    return out

# ---------- printing
def show(t, depth=0):
    op = t.op
    if op == 'const': return str(t.args[0])
    if op == 'var': return t.args[0]
    if op == 'bv': return '#%d' % t.args[0]
    if op == 'poly':
        out = []
        for m, c in t.args[0]:
            fs = [show(a) + ('^%d' % e if e != 1 else '') for a, e in m]
            if c == 1 and fs: s = '*'.join(fs)
            elif c == -1 and fs: s = '-' + '*'.join(fs)
            else: s = '*'.join([str(c)] + fs)
            out.append(s)
        return '(' + ' + '.join(out) + ')'
    if op == 'read': return '%s[%s]' % (t.args[0].name, ','.join(show(a) for a in t.args[1:]))
    if op == 'app': return '%s(%s)' % (t.args[0], ','.join(show(a) for a in t.args[1:]))
    if op == 'sum': return 'SUM{#%d<%s}(%s)' % (t.args[2], show(t.args[0]), show(t.args[1]))
    if op == 'ite': return 'ite(%s, %s, %s)' % tuple(show(a) for a in t.args)
    if op == 'le0': return '%s<=0' % show(t.args[0])
    if op == 'lt0': return '%s<0' % show(t.args[0])
    if op == 'eq0': return '%s==0' % show(t.args[0])
    if op == 'not': return '!(%s)' % show(t.args[0])
    if op == 'and': return '(' + ' & '.join(show(a) for a in t.args) + ')'
    if op == 'or': return '(' + ' | '.join(show(a) for a in t.args) + ')'
    if op == 'forall': return 'ALL %s.(%s)' % (','.join(show(v) for v in t.args[0]), show(t.args[1]))
    if op in ('true', 'false'): return op
    return '%s(%s)' % (op, ', '.join(show(a) for a in t.args))
