"""z3 encoding, the incremental decider used during symbolic execution, and the obligation prover."""
import z3, time, itertools, contextlib
from term import *
import term as tm

APPSIG = {}     # name -> string of argument sorts; default all 'R'
APPAX = {}      # name -> function(app term) -> list of Bool terms (valid facts about the application)

class Encoder:
    def __init__(self, nonlin=False):
        self.memo = {}
        self.nonlin = nonlin
        self.funcs = {}
        self.ctx = z3.Context()
        c = self.ctx
        self.I = z3.IntSort(c); self.R = z3.RealSort(c); self.B = z3.BoolSort(c)
        self.mulI = z3.Function('mulI', self.I, self.I, self.I)
        self.mulR = z3.Function('mulR', self.R, self.R, self.R)
        self.invf = z3.Function('invR', self.R, self.R)
        self.truncf = z3.Function('truncR', self.R, self.I)
        self.tdivf = z3.Function('tdivI', self.I, self.I, self.I)
        self.tmodf = z3.Function('tmodI', self.I, self.I, self.I)
    def srt(self, s): return {'I': self.I, 'R': self.R, 'B': self.B}[s]
    def const(self, c, real):
        if real: return z3.RealVal(str(c), self.ctx)
        return z3.IntVal(c, self.ctx)
    def fun(self, name, sig):
        f = self.funcs.get((name, sig))
        if f is None:
            f = z3.Function('%s' % name, *[self.srt(s) for s in sig])
            self.funcs[(name, sig)] = f
        return f
    def n(self, t, want=None):
        """numeric term; want None|'I'|'R'"""
        want = want or t.sort
        if want == 'I' and t.sort != 'I': raise ValueError('real where int expected: %s' % t)
        key = (t, want)
        r = self.memo.get(key)
        if r is None:
            if want == 'R' and t.sort == 'I' and t.op != 'const':
                r = z3.ToReal(self.n(t, 'I'))
            else: r = self._n(t, want == 'R')
            self.memo[key] = r
        return r
    def _n(self, t, real):
        op = t.op
        if op == 'const': return self.const(t.args[0], real)
        if op == 'var':
            return z3.Const(t.args[0], self.srt(t.sort))
        if op == 'bv': return z3.Int('bv%d' % t.args[0], self.ctx)
        if op == 'poly':
            parts = []
            for m, c in t.args[0]:
                if m == (): parts.append(self.const(c, real)); continue
                e = self.mono(m, real)
                parts.append(e if c == 1 else self.const(c, real) * e)
            return z3.Sum(parts) if len(parts) > 1 else parts[0]
        if op == 'read':
            a = t.args[0]
            f = self.fun('%s#%d' % (a.name, a.id), 'I' * len(t.args[1:]) + a.sort)
            return f(*[self.n(i, 'I') for i in t.args[1:]])
        if op == 'app':
            sig = APPSIG.get(t.args[0], 'R' * (len(t.args) - 1))
            f = self.fun('f_' + t.args[0], sig + t.sort)
            if not sig: return z3.Const('f_' + t.args[0], self.srt(t.sort))
            return f(*[self.n(a, s) for a, s in zip(t.args[1:], sig)])
        if op == 'ite':
            return z3.If(self.b(t.args[0]), self.n(t.args[1], t.sort), self.n(t.args[2], t.sort))
        if op == 'inv': return self.invf(self.n(t.args[0], 'R'))
        if op == 'opq': return self.n(t.args[0])
        if op == 'tdiv': return self.tdivf(self.n(t.args[0]), self.n(t.args[1]))
        if op == 'tmod': return self.tmodf(self.n(t.args[0]), self.n(t.args[1]))
        if op == 'trunc': return self.truncf(self.n(t.args[0], 'R'))
        if op == 'sum':
            name, params = skeleton(t)
            f = self.fun('SUM_' + name, 'I' + ''.join(p.sort for p in params) + t.sort)
            return f(self.n(t.args[0], 'I'), *[self.b(p) if p.sort == 'B' else self.n(p) for p in params])
        raise NotImplementedError(op)
    def mono(self, m, real):
        """product of atoms"""
        fs = []
        for a, e in m: fs += [a] * e
        if len(fs) == 1: return self.n(fs[0], 'R' if real else 'I')
        ints = [a for a in fs if a.sort == 'I']
        reals = [a for a in fs if a.sort != 'I']
        def prod(es, f):
            if self.nonlin:
                r = es[0]
                for x in es[1:]: r = r * x
                return r
            r = es[-1]
            for x in reversed(es[:-1]): r = f(x, r)
            return r
        if reals:
            es = [self.n(a, 'R') for a in reals]
            if ints:
                ie = prod([self.n(a, 'I') for a in ints], self.mulI)
                es = [z3.ToReal(ie)] + es
            return prod(es, self.mulR) if len(es) > 1 else es[0]
        ie = prod([self.n(a, 'I') for a in ints], self.mulI)
        return z3.ToReal(ie) if real else ie
    def b(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self._b(t); self.memo[t] = r
        return r
    def _b(self, t):
        op = t.op
        if op == 'true': return z3.BoolVal(True, self.ctx)
        if op == 'false': return z3.BoolVal(False, self.ctx)
        if op == 'not': return z3.Not(self.b(t.args[0]))
        if op == 'and': return z3.And(*[self.b(a) for a in t.args])
        if op == 'or': return z3.Or(*[self.b(a) for a in t.args])
        if op in ('le0', 'lt0', 'eq0'):
            p = t.args[0]
            # split into lhs <= rhs with positive coefficients for readability/perf
            e = self.n(p)
            z = self.const(0, p.sort == 'R')
            return e <= z if op == 'le0' else e < z if op == 'lt0' else e == z
        if op == 'var': return z3.Const(t.args[0], self.B)
        if op == 'read':
            a = t.args[0]
            f = self.fun('%s#%d' % (a.name, a.id), 'I' * len(t.args[1:]) + 'B')
            return f(*[self.n(i, 'I') for i in t.args[1:]])
        if op == 'app':
            sig = APPSIG.get(t.args[0], 'R' * (len(t.args) - 1))
            f = self.fun('f_' + t.args[0], sig + 'B')
            return f(*[self.n(a, s) for a, s in zip(t.args[1:], sig)])
        if op == 'forall':
            return z3.Bool('forall#%d' % t.id, self.ctx)      # an unknown proposition, the same for the same formula
        raise NotImplementedError(op)

_skel = {}
def skeleton(t):
    r = _skel.get(t)
    if r: return r
    params = []
    def P(u):
        for i, p in enumerate(params):
            if p is u: return '$%d' % i
        params.append(u); return '$%d%s' % (len(params) - 1, u.sort)
    def go(u):
        if not tm._hasbv(u):
            return P(u)
        op = u.op
        if op == 'bv': return '#%d' % u.args[0]
        if op == 'poly':
            out = []; free = {}
            for m, c in u.args[0]:
                dep = [(a, e) for a, e in m if tm._hasbv(a)]
                if not dep: free[m] = c; continue
                fr = from_pd({tuple((a, e) for a, e in m if not tm._hasbv(a)): 1})
                s = '%s' % c
                if not isconst(fr): s += '*' + P(fr)
                s += ''.join('*' + go(a) + '^%d' % e for a, e in dep)
                out.append(s)
            return '(' + '+'.join(out) + '+' + P(from_pd(free)) + ')'
        if op == 'read':
            return '%s#%d[%s]' % (u.args[0].name, u.args[0].id, ','.join(goi(a) for a in u.args[1:]))
        if op == 'app': return '%s(%s)' % (u.args[0], ','.join(go(a) for a in u.args[1:]))
        if op == 'sum': return 'S%d<%s>(%s)' % (u.args[2], go(u.args[0]), go(u.args[1]))
        return '%s(%s)' % (op, ','.join(go(a) for a in u.args))
    def goi(u):
        if u.op == 'bv': return '(1*%s^1+%s)' % (go(u), P(ZERO))
        return go(u)
    s = go(t.args[1])
    r = (s, params)
    _skel[t] = r
    return r

def int_products(ts):
    """int-only sub-products (pairs as encoded by mulI chains) occurring in ts"""
    out = set()
    for u in subterms(ts):
        if u.op == 'poly':
            for m, c in u.args[0]:
                ints = []
                for a, e in m:
                    if a.sort == 'I': ints += [a] * e
                if len(ints) >= 2: out.add(tuple(ints))
    return out

def prod_term(fs):
    return mul(*fs)

DL = [float('inf')]
def product_lemmas(ts, limit=60):
    """valid facts about integer products"""
    ps = sorted(int_products(ts), key=lambda p: [a.id for a in p])
    if len(ps) > limit: ps = ps[:limit]
    out = []
    seen = set()
    facts = []
    for p in ps:
        for i in range(len(p)):
            x = p[i]; rest = p[:i] + p[i + 1:]
            if (x, rest) in seen: continue
            seen.add((x, rest))
            facts.append((x, rest))
    for x, rest in facts:
        if time.time() > DL[0]: return out
        r = mul(*rest); pr = mul(x, r)
        out.append(implies(and_(le(ZERO, x), le(ZERO, r)), le(ZERO, pr)))
        out.append(implies(and_(le(ONE, x), le(ZERO, r)), le(r, pr)))
        out.append(implies(and_(le(x, ZERO), le(ZERO, r)), le(pr, ZERO)))
        out.append(implies(eq(x, ZERO), eq(pr, ZERO)))
        if x in rest: out.append(le(ZERO, mul(x, x)))
    byrest = {}
    for x, rest in facts: byrest.setdefault(rest, []).append(x)
    # a factor alone counts as 1*rest
    for rest, xs in byrest.items():
        r = mul(*rest)
        if time.time() > DL[0]: return out
        for x, y in itertools.combinations(xs, 2):
            out.append(implies(and_(le(add(x, ONE), y), le(ZERO, r)), le(add(mul(x, r), r), mul(y, r))))
            out.append(implies(and_(le(add(y, ONE), x), le(ZERO, r)), le(add(mul(y, r), r), mul(x, r))))
            out.append(implies(eq(x, y), eq(mul(x, r), mul(y, r))))
            if len(xs) <= 9:
                out.append(implies(and_(le(add(x, num(2)), y), le(ZERO, r)), le(add(mul(x, r), scale(r, 2)), mul(y, r))))
                out.append(implies(and_(le(add(y, num(2)), x), le(ZERO, r)), le(add(mul(y, r), scale(r, 2)), mul(x, r))))
    return out

def divmod_axioms(ts):
    out = []; seen = set()
    for u in subterms(ts):
        if u.op in ('tdiv', 'tmod'):
            a, b = u.args
            if u.op == 'tdiv' and isconst(b) and (u in seen): continue
            seen.add(u)
            q = tdiv(a, b); r = tmod(a, b)
            nz = ne(b, ZERO)
            out.append(implies(nz, eq(a, add(mul(b, q), r))))
            out.append(implies(and_(nz, le(ZERO, a)), and_(le(ZERO, r), lt(r, fabs(b)))))
            out.append(implies(and_(nz, le(a, ZERO)), and_(le(r, ZERO), lt(neg(fabs(b)), r))))
            out.append(implies(and_(lt(ZERO, b), le(ZERO, a)), and_(le(ZERO, q), le(q, a))))
        elif u.op == 'trunc':
            a = u.args[0]
            out.append(implies(le(ZERO, a), and_(le(u, a), lt(a, add(u, ONE)))))
            out.append(implies(le(a, ZERO), and_(le(a, u), lt(sub(u, ONE), a))))
    return out

def misc_axioms(ts):
    out = []
    for u in subterms(ts):
        if u.op == 'inv':
            b = u.args[0]
            out.append(implies(ne(b, ZERO), eq(mul(b, u), ONE)))
            out.append(implies(lt(ZERO, b), lt(ZERO, u)))
            out.append(implies(lt(b, ZERO), lt(u, ZERO)))
        elif u.op == 'app':
            f = APPAX.get(u.args[0])
            if f: out += f(u)
    return out

def flat(f):
    """conjuncts"""
    if f.op == 'and':
        for a in f.args: yield from flat(a)
    else: yield f

def has_quant(t):
    if t.op == 'forall': return True
    if t.op in ('and', 'or', 'not'): return any(has_quant(a) for a in t.args)
    return False

class Decider:
    """decides conditions under the current path condition; sound, incomplete"""
    RL = 400000
    def __init__(self):
        self.enc = Encoder()
        self.s = z3.SimpleSolver(ctx=self.enc.ctx)
        self.s.set('timeout', 2000)
        self.s.set('rlimit', self.RL)
        self.stack = []       # asserted conds
        self.cache = {}
        self.nq = 0
        self.hits = 0
        self.time = 0
    def sync(self, pc):
        """make the solver stack equal to pc (a list of Bool terms)"""
        i = 0
        st = self.stack
        while i < len(st) and i < len(pc) and st[i] is pc[i]: i += 1
        while len(st) > i:
            self.s.pop(); st.pop()
        for c in pc[i:]:
            self._push(c)
    def _push(self, c):
        self.s.push(); self.stack.append(c)
        if not has_quant(c):
            self.s.add(self.enc.b(c))
            ax = divmod_axioms([c])
            for a in ax: self.s.add(self.enc.b(a))
    @contextlib.contextmanager
    def assume(self, *cs):
        n = len(self.stack)
        for c in cs:
            if c is not TRUE: self._push(c)
        try: yield
        finally:
            while len(self.stack) > n:
                self.s.pop(); self.stack.pop()
    def __call__(self, cond):
        if cond is TRUE: return True
        if cond is FALSE and not self.stack: return False
        key = (cond, tuple(c.id for c in self.stack))
        r = self.cache.get(key)
        if r is not None: self.hits += 1; return r
        r = self._decide(cond)
        self.cache[key] = r
        return r
    def _decide(self, cond):
        if cond in self.stack: return True
        if cond.op == 'and': return all(self(c) for c in cond.args)
        if has_quant(cond): return False
        self.nq += 1
        t0 = time.time()
        self.s.push()
        try:
            lem = product_lemmas([cond] + self.stack[-40:], 12) if any(u.op == 'poly' and any(
                sum(e for a, e in m if a.sort == 'I') > 1 for m, c in u.args[0]) for u in subterms([cond])) else []
            for a in lem + divmod_axioms([cond]): self.s.add(self.enc.b(a))
            self.s.add(z3.Not(self.enc.b(cond)))
            return self.s.check() == z3.unsat
        finally:
            self.s.pop()
            self.time += time.time() - t0
    def known(self, cond):
        if cond is TRUE: return True
        if cond is FALSE: return False
        if self(cond): return True
        if self(not_(cond)): return False
        return None
