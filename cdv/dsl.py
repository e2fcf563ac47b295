"""Contract language: Python expression syntax, evaluated symbolically (proof) and concretely (replay)."""
import ast, math, re
from term import *
import term as tm
from arrays import *
import arrays as ar
import sym
from sym import Ptr, Null, PIte, NULL, strid, Unsupported, Arr
import builtins_c

SPECS = {}      # name -> (params, ast expr)
UFS = {}        # uninterpreted spec functions: name -> (sig, result sort, unfold)
REC = {}        # recursive integer/real spec functions: name -> (params, sig, sort, ast expr)

_pc = {}
def parse(txt):
    t = _pc.get(txt)
    if t is None:
        t = ast.parse(re.sub(r'\blambda\b', 'lambda_', txt.strip().replace('\n', ' ')), mode='eval').body
        _pc[txt] = t
    return t

def spec(head, body):
    """define a (non-recursive) spec function: spec('mean(x,n)', 'sum(i,0,n,x[i])/n')"""
    h = parse(head)
    SPECS[h.func.id] = ([a.id for a in h.args], parse(body))
EXT = {}        # functions of arrays that depend only on stated index ranges: name -> (params, sig, {param: length})
PYFN = {}       # concrete meaning of uninterpreted spec functions (used by replay and bounded runs)
LIFT = {}       # array arguments given by an expression: id -> (variable, body)
_lifted = {}
def rec(head, sig, sort, body, ranges=None):
    """recursive spec function over scalars: value given by one unfolding of body; ranges: the value depends only on
    elements 0 <= i < length of the array arguments"""
    h = parse(head)
    name = h.func.id
    if ranges: EXT[name] = ([a.id for a in h.args], sig, {k: parse(v) for k, v in ranges.items()})
    REC[name] = ([a.id for a in h.args], sig, sort, parse(body))
    import smt
    smt.APPSIG[name] = sig.replace('A', 'II')     # an array argument is passed as (identity of the array, offset)
def ufn(head, sig, sort, ranges=None, py=None):
    """uninterpreted spec function; with array arguments it is a function of the stated index ranges only"""
    import smt
    name = head
    if '(' in head:
        h = parse(head); name = h.func.id
        if ranges: EXT[name] = ([a.id for a in h.args], sig, {k: parse(v) for k, v in ranges.items()})
    if py: PYFN[name] = py
    smt.APPSIG[name] = sig.replace('A', 'II'); UFS[name] = (sig, sort)

ARRS = {}
CALLBACKS = {}
def arr_args(a, e):
    """array argument of a recursive spec function: (identity, offset) of the uninterpreted array it denotes"""
    x = fresh('aa')
    ln = a.a.ln if isinstance(a, PA) else a.ln
    if ln is not None:
        with e.dec.assume(le(ZERO, x), lt(x, ln)): t = a.get(x)
    else: t = a.get(x)
    if t.op == 'read' and len(t.args) == 2 and x in t.args[1].fv:
        c = sub(t.args[1], x)
        if x not in c.fv:
            ARRS[t.args[0].id] = t.args[0]
            return [num(t.args[0].id), c]
    cv = var('lift!x', 'I')
    body = tm._rawsubst(t, {x: cv})
    for u in body.fv:
        if isinstance(u, T) and u.op == 'var' and re.match(r'^(q|s|aa)!', str(u.args[0])):
            raise Unsupported('array argument depends on a bound variable')
    b = _lifted.get(body)
    if b is None:
        b = BaseArr('lift', 'R'); _lifted[body] = b; ARRS[b.id] = b; LIFT[b.id] = (cv, body)
    return [num(b.id), ZERO]
    raise Unsupported('array argument of a recursive spec function is not a plain array: ' + show(t)[:200])

def arr_at(id, i):
    if id in LIFT:
        cv, body = LIFT[id]
        return tm.subst(body, {cv: i})
    return read(ARRS[id], i)

class ARef:
    """array-valued spec expression: fn(i term) -> term"""
    __slots__ = ('get', 'ln')
    def __init__(s, get, ln=None): s.get = get; s.ln = ln
class ORef:
    """pointer to an object, in a given state"""
    __slots__ = ('ptr', 'st')
    def __init__(s, ptr, st): s.ptr = ptr; s.st = st

class SymEnv:
    def __init__(self, E, st, old, names, dec, result=None):
        self.E = E; self.st = st; self.old = old; self.names = names; self.dec = dec
        self.result = result
        self.loc = {}; self.pre = None
    def bind(self, m):
        e = SymEnv(self.E, self.st, self.old, self.names, self.dec, self.result)
        e.loc = dict(self.loc); e.loc.update(m); e.pre = self.pre; return e
    def instate(self, st, names=None):
        e = SymEnv(self.E, st, self.old, self.names if names is None else names, self.dec, self.result)
        e.loc = self.loc; e.pre = self.pre; return e

    def wrap(self, v):
        if isinstance(v, (Ptr, PIte, Null)) or sym.isptr(v): return self.aref(v)
        if isinstance(v, sym.Cell): return self.aref(Ptr(v.rid))
        return v
    def aref(self, p):
        st = self.st; E = self.E; dec = self.dec
        if isinstance(p, Ptr):
            c = st.heap.get((p.rid, p.fld))
            r = E.regions[p.rid]
            if isinstance(c, Arr):
                a = ARef(lambda i: aread(c, add(p.off, i), dec), E.reg_len(r, p.fld))
                return PA(p, st, a)
            if isinstance(c, T) and p.fld is not None: return PA(p, st, ARef(lambda i: c))
            return ORef(p, st)
        if isinstance(p, PIte):
            a = self.aref(p.a); b = self.aref(p.b)
            if isinstance(a, PA) and isinstance(b, PA):
                return PA(p, st, ARef(lambda i: ite(p.c, a.get(i), b.get(i))))
            if isinstance(a, PA): return PA(p, st, a.a)
            if isinstance(b, PA): return PA(p, st, b.a)
        return ORef(p, st)
    def name(self, x):
        if x in self.loc: return self.loc[x]
        if x == 'lambda_' and 'lambda' in self.names: x = 'lambda'
        if x == 'result':
            return self.wrap(self.result)
        if x in self.names:
            v = self.names[x]
            if callable(v): v = v(self.st)
            return self.wrap(v)
        raise Unsupported('unknown name %s in contract' % x)

class PA:
    """pointer that is also an array view"""
    __slots__ = ('ptr', 'st', 'a')
    def __init__(s, ptr, st, a): s.ptr = ptr; s.st = st; s.a = a
    def get(s, i): return s.a.get(i)

def tb(v):
    """to bool term"""
    if v.sort == 'B': return v
    return ne(v, ZERO)
def tn(v):
    if isinstance(v, T) and v.sort == 'B': return ite(v, ONE, ZERO)
    return v

def ev(n, e):
    if isinstance(n, str): n = parse(n)
    t = type(n)
    if t is ast.Constant:
        v = n.value
        if isinstance(v, bool): return TRUE if v else FALSE
        if isinstance(v, int): return num(v)
        if isinstance(v, float): return num(norm(v))
        if isinstance(v, str): return strid(v)
        if v is None: return ORef(NULL, e.st)
    if t is ast.Name:
        if n.id in ('True',): return TRUE
        if n.id in ('False',): return FALSE
        if n.id == 'NULL': return ORef(NULL, e.st)
        return e.name(n.id)
    if t is ast.BinOp:
        a = tn(ev(n.left, e)); b = tn(ev(n.right, e))
        op = type(n.op)
        if isinstance(a, PA) or isinstance(b, PA):
            if op is ast.Add and isinstance(b, T):
                p = a.ptr
                return PA(Ptr(p.rid, add(p.off, b), p.fld) if isinstance(p, Ptr) else None, a.st, ARef(lambda i: a.get(add(i, b))))
            raise Unsupported('pointer arithmetic in contract')
        if isinstance(a, ARef) and op is ast.Add:
            return ARef(lambda i: a.get(add(i, b)))
        if op is ast.Add: return add(a, b)
        if op is ast.Sub: return sub(a, b)
        if op is ast.Mult: return mul(a, b)
        if op is ast.Div: return div(a, b)
        if op is ast.FloorDiv: return e.E.idiv(e.st, a, b) if e.E else tdiv(a, b)
        if op is ast.Mod: return e.E.imod(e.st, a, b) if e.E else tmod(a, b)
        if op is ast.Pow: return builtins_c.mathpow(a, b)
    if t is ast.UnaryOp:
        v = ev(n.operand, e)
        if isinstance(n.op, ast.USub): return neg(tn(v))
        if isinstance(n.op, ast.Not): return not_(tb(v))
        return v
    if t is ast.BoolOp:
        vs = []
        sh = isinstance(n.op, ast.And)
        def rest(i):
            v = tb(ev(n.values[i], e))
            if i + 1 == len(n.values) or v is (FALSE if sh else TRUE): return v
            with e.dec.assume(v if sh else not_(v)):
                r = rest(i + 1)
            return and_(v, r) if sh else or_(v, r)
        return rest(0)
    if t is ast.Compare:
        out = TRUE
        l = ev(n.left, e)
        for op, c in zip(n.ops, n.comparators):
            r = ev(c, e)
            out = and_(out, cmp_(type(op), l, r, e))
            l = r
        return out
    if t is ast.IfExp:
        c = tb(ev(n.test, e))
        k = e.dec.known(c)
        if k is True: return ev(n.body, e)
        if k is False: return ev(n.orelse, e)
        with e.dec.assume(c): a = ev(n.body, e)
        with e.dec.assume(not_(c)): b = ev(n.orelse, e)
        if isinstance(a, T) and a.sort == 'B': return or_(and_(c, tb(a)), and_(not_(c), tb(b)))
        return ite(c, tn(a), tn(b))
    if t is ast.Subscript:
        a = ev(n.value, e); i = tn(ev(n.slice, e))
        if isinstance(a, (PA, ARef)): return a.get(i)
        raise Unsupported('subscript of %r in contract' % (a,))
    if t is ast.Attribute:
        a = ev(n.value, e)
        if isinstance(a, ORef):
            p = a.ptr
            if isinstance(p, Ptr):
                f = n.attr if p.fld is None else p.fld + '.' + n.attr
                v = a.st.heap.get((p.rid, f))
                if v is None:
                    raise Unsupported('no field %s' % f)
                if isinstance(v, T): return v
                e2 = e.instate(a.st)
                if isinstance(v, Arr): return e2.aref(Ptr(p.rid, ZERO, f))
                return e2.wrap(v)
        raise Unsupported('attribute %s of %r in contract' % (n.attr, a))
    if t is ast.Call:
        f = n.func.id; A = n.args
        if f in ('sum', 'prod'):
            lo = tn(ev(A[1], e)); hi = tn(ev(A[2], e))
            x = fresh('s')
            with e.dec.assume(le(lo, x), lt(x, hi)):
                b = tn(ev(A[3], e.bind({A[0].id: x})))
            return SumR(x, lo, hi, b, e.dec)
        if f in ('forall', 'exists'):
            lo = tn(ev(A[1], e)); hi = tn(ev(A[2], e))
            x = fresh('q')
            r = and_(le(lo, x), lt(x, hi))
            with e.dec.assume(r):
                b = tb(ev(A[3], e.bind({A[0].id: x})))
            return forall((x,), implies(r, b)) if f == 'forall' else exists((x,), and_(r, b))
        if f == 'implies':
            c = tb(ev(A[0], e))
            if e.dec(not_(c)): return TRUE
            with e.dec.assume(c): b = tb(ev(A[1], e))
            return implies(c, b)
        if f == 'iff': return iff(tb(ev(A[0], e)), tb(ev(A[1], e)))
        if f == 'old': return ev(A[0], e.instate(e.old))
        if f == 'pre':      # in a loop invariant: the value when the loop was entered
            return ev(A[0], e.instate(*e.pre))
        if f == 'let':      # let(x, e, body)
            return ev(A[2], e.bind({A[0].id: ev(A[1], e)}))
        if f == 'fn':       # fn(i, expr): an array-valued expression
            nm = A[0].id
            return ARef(lambda i: tn(ev(A[1], e.bind({nm: i}))))
        if f == 'abs': return fabs(tn(ev(A[0], e)))
        if f in ('min', 'max'):
            vs = [tn(ev(a, e)) for a in A]
            r = vs[0]
            for v in vs[1:]:
                if f == 'min': r = tm._dmin(r, v, e.dec)
                else: r = tm._dmax(r, v, e.dec)
            return r
        if f == 'trunc': return trunc(tn(ev(A[0], e)))
        if f == 'pow': return builtins_c.mathpow(tn(ev(A[0], e)), tn(ev(A[1], e)))
        if f in ('sqrt', 'exp', 'log', 'tanh', 'atan', 'sin', 'cos', 'floor', 'ceil', 'log10', 'fmod', 'expm1', 'log1p', 'atanh', 'tan'):
            if f == 'fmod': return app('fmod', [tn(ev(a, e)) for a in A], 'R')
            return builtins_c.mathfn(f, tn(ev(A[0], e)))
        if f == 'same':     # pointer equality
            a = ev(A[0], e); b = ev(A[1], e)
            return e.E.ptreq(a.ptr, b.ptr)
        if f == 'isnull':
            return e.E.ptreq(ev(A[0], e).ptr, NULL)
        if f == 'offset':   # offset(p, q): p == q + result, same object
            a = ev(A[0], e).ptr; b = ev(A[1], e).ptr
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.rid == b.rid: return sub(a.off, b.off)
            raise Unsupported('offset of pointers into different objects')
        if f == 'at':       # at(p, base, off): p points at base[off]
            a = ev(A[0], e).ptr; b = ev(A[1], e).ptr; o = tn(ev(A[2], e))
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.rid == b.rid and a.fld == b.fld: return eq(a.off, add(b.off, o))
            return FALSE
        if f == 'length':
            a = ev(A[0], e)
            p = a.ptr
            return sub(e.E.reg_len(e.E.regions[p.rid], p.fld), p.off)
        if f in SPECS:
            ps, body = SPECS[f]
            vals = [ev(a, e) for a in A]
            e2 = SymEnv(e.E, e.st, e.old, {}, e.dec, None)
            e2.loc = {p: v for p, v in zip(ps, vals)}
            return ev(body, e2)
        if f in REC:
            ps, sig, sort, body = REC[f]
            args = []
            for a, sg in zip(A, sig):
                v = ev(a, e)
                if sg == 'A': args += arr_args(v, e)
                else: args.append(tn(v))
            return app(f, args, sort)
        if f.startswith('cb_'): return app(f, [tn(ev(a, e)) for a in A], 'R')
        if f in UFS:
            sig, sort = UFS[f]
            args = []
            for a, sg in zip(A, sig):
                v = ev(a, e)
                if sg == 'A': args += arr_args(v, e)
                else: args.append(tn(v))
            return app(f, args, sort)
        raise Unsupported('function %s in contract' % f)
    raise Unsupported('contract expression ' + ast.dump(n)[:100])

def cmp_(op, l, r, e):
    if isinstance(l, T) != isinstance(r, T) and (isinstance(l, (PA, ORef, sym.StrLit)) or isinstance(r, (PA, ORef, sym.StrLit))):     # comparison of character data with a literal
        l, r = (x if isinstance(x, T) else builtins_c.strval(e.E, e.st, x if isinstance(x, sym.StrLit) else x.ptr) for x in (l, r))
        v = eq(l, r)
        return v if op is ast.Eq else not_(v)
    if isinstance(l, (PA, ORef)) or isinstance(r, (PA, ORef)):
        v = e.E.ptreq(l.ptr, r.ptr)
        return v if op is ast.Eq else not_(v)
    if op in (ast.Eq, ast.NotEq):
        if l.sort == 'B' or r.sort == 'B': v = iff(tb(l), tb(r))
        else: v = eq(l, r)
        return v if op is ast.Eq else not_(v)
    l = tn(l); r = tn(r)
    return {ast.Lt: lt, ast.LtE: le, ast.Gt: gt, ast.GtE: ge}[op](l, r)

def rec_axiom(u):
    """unfolding of a recursive spec application"""
    name = u.args[0]
    if name not in REC: return []
    ps, sig, sort, body = REC[name]
    e = SymEnv(None, None, None, {}, NODEC, None)
    args = list(u.args[1:])
    for p, sg in zip(ps, sig):
        if sg == 'A':
            if not isconst(args[0]): return []
            b = ARRS[cval(args[0])]; c = args[1]
            e.loc[p] = ARef((lambda b, c: lambda i: arr_at(b.id, add(i, c)))(b, c)); args = args[2:]
        else: e.loc[p] = args.pop(0)
    v = ev(body, e)
    return [eq(u, v)]

# ------------------------------------------------------------------------------------ concrete evaluation
class Obj:
    pass
class CEnv:
    """names -> python values (numbers, lists, Obj); old: dict"""
    def __init__(self, names, old=None, result=None):
        self.names = names; self.old = old; self.result = result
class View:
    __slots__ = ('l', 'o')
    def __init__(s, l, o): s.l = l; s.o = o
    def __getitem__(s, i): return s.l[i + s.o] if i + s.o >= 0 else _oob()
class FnView:
    def __init__(s, f): s.f = f
    def __getitem__(s, i): return s.f(i)
def _oob(): raise IndexError
_memo = {}
def cidiv(a, b):
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q
TOL = 1e-7
class Approx(float):
    pass
def ceq(a, b, tol=None):
    if isinstance(a, (int, str)) and isinstance(b, (int, str)): return a == b
    if a is None or b is None: return a is b
    tol = tol or TOL
    try:
        if math.isnan(a) or math.isnan(b): return math.isnan(a) and math.isnan(b)      # undefined on both sides: the contract says nothing about such values
        if math.isinf(a) or math.isinf(b): return a == b
    except TypeError: return a == b
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))

def cev(n, e, loc=None):
    loc = loc or {}
    if isinstance(n, str): n = parse(n)
    t = type(n)
    if t is ast.Constant: return n.value
    if t is ast.Name:
        if n.id in loc: return loc[n.id]
        if n.id == 'result': return e.result
        if n.id == 'NULL': return None
        if n.id == 'lambda_' and 'lambda' in e.names: return e.names['lambda']
        return e.names[n.id]
    if t is ast.BinOp:
        a = cev(n.left, e, loc); b = cev(n.right, e, loc)
        op = type(n.op)
        if isinstance(a, (list, View, FnView)): return View(a, b) if not isinstance(a, View) else View(a.l, a.o + b)
        if op is ast.Add: return a + b
        if op is ast.Sub: return a - b
        if op is ast.Mult: return a * b
        if op is ast.Div: return a / b
        if op is ast.FloorDiv: return cidiv(a, b)
        if op is ast.Mod: return a - b * cidiv(a, b)
        if op is ast.Pow: return a ** b
    if t is ast.UnaryOp:
        v = cev_strict(n.operand, e, loc) if isinstance(n.op, ast.Not) else cev(n.operand, e, loc)
        if isinstance(n.op, ast.USub): return -v
        if isinstance(n.op, ast.Not): return not v
        return v
    if t is ast.BoolOp:
        if isinstance(n.op, ast.And): return all(cev(v, e, loc) for v in n.values)
        return any(cev(v, e, loc) for v in n.values)
    if t is ast.Compare:
        l = cev(n.left, e, loc)
        for op, c in zip(n.ops, n.comparators):
            r = cev(c, e, loc)
            o = type(op)
            fl = isinstance(l, float) or isinstance(r, float)
            sl = TOL * max(1.0, abs(l), abs(r)) if fl and l is not None and r is not None else 0
            ok = ceq(l, r) if o is ast.Eq else (not ceq(l, r)) if o is ast.NotEq else l < r + sl if o is ast.Lt else \
                l <= r + sl if o is ast.LtE else l > r - sl if o is ast.Gt else l >= r - sl
            if not ok: return False
            l = r
        return True
    if t is ast.IfExp:
        return cev(n.body if cev_strict(n.test, e, loc) else n.orelse, e, loc)
    if t is ast.Subscript:
        a = cev(n.value, e, loc); i = cev(n.slice, e, loc)
        if isinstance(a, list) and i < 0: raise IndexError
        return a[i]
    if t is ast.Attribute:
        return getattr(cev(n.value, e, loc), n.attr)
    if t is ast.Call:
        f = n.func.id; A = n.args
        if f == 'sum':
            lo = cev(A[1], e, loc); hi = cev(A[2], e, loc)
            return math.fsum(cev(A[3], e, {**loc, A[0].id: i}) for i in range(lo, hi))  if hi > lo else 0
        if f == 'forall':
            return all(cev(A[3], e, {**loc, A[0].id: i}) for i in range(cev(A[1], e, loc), cev(A[2], e, loc)))
        if f == 'exists':
            return any(cev(A[3], e, {**loc, A[0].id: i}) for i in range(cev(A[1], e, loc), cev(A[2], e, loc)))
        if f == 'implies': return (not cev_strict(A[0], e, loc)) or cev(A[1], e, loc)
        if f == 'iff': return bool(cev_strict(A[0], e, loc)) == bool(cev_strict(A[1], e, loc))
        if f == 'old':
            return cev(A[0], CEnv(e.old, e.old, e.result), loc)
        if f == 'let': return cev(A[2], e, {**loc, A[0].id: cev(A[1], e, loc)})
        if f == 'fn':
            nm = A[0].id
            return FnView(lambda i: cev(A[1], e, {**loc, nm: i}))
        if f == 'abs': return abs(cev(A[0], e, loc))
        if f in ('min', 'max'): return (min if f == 'min' else max)(cev(a, e, loc) for a in A)
        if f == 'trunc': return int(cev(A[0], e, loc))
        if f == 'pow': return math.pow(cev(A[0], e, loc), cev(A[1], e, loc))
        if f in ('sqrt', 'exp', 'log', 'tanh', 'atan', 'sin', 'cos', 'floor', 'ceil', 'log10', 'fmod', 'expm1', 'log1p', 'atanh', 'tan'):
            return getattr(math, f)(*[cev(a, e, loc) for a in A])
        if f in SPECS:
            ps, body = SPECS[f]
            return cev(body, CEnv({}, {}, None), dict(zip(ps, [cev(a, e, loc) for a in A])))
        if f in REC:
            ps, sig, sort, body = REC[f]
            vals = [cev(a, e, loc) for a in A]
            key = (f,) + tuple(tuple(v) if isinstance(v, list) else (tuple(v.l), v.o) if isinstance(v, View) else v for v in vals)
            if key in _memo: return _memo[key]
            r = cev(body, CEnv({}, {}, None), dict(zip(ps, vals)))
            if len(_memo) > 50000: _memo.clear()
            _memo[key] = r
            return r
        if f in PYFN: return PYFN[f](*[cev(a, e, loc) for a in A])
        if f.startswith('cb_'): return CALLBACKS[f[3:]](*[cev(a, e, loc) for a in A])
        if f == 'isnull': return cev(A[0], e, loc) is None
        raise NotImplementedError(f)
    raise NotImplementedError(ast.dump(n)[:80])

def cev_strict(n, e, loc):
    global TOL
    s = TOL
    TOL = 0.0
    try: return cev(n, e, loc)
    finally: TOL = s
