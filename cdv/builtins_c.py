"""C library functions used by the code, axiomatised (trusted)."""
from term import *
import term as tm
from sym import *
import sym

def _num(E, st, a): return E.tonum(E.expr(st, a))

def f1(name):
    def g(E, st, args, n):
        a = _num(E, st, args[0])
        return mathfn(name, a)
    return g
def mathfn(name, a):
    if name == 'fabs': return fabs(a)
    if name == 'sqrt':
        if isconst(a):
            from math import isqrt
            c = Fraction(cval(a))
            if c >= 0 and isqrt(c.numerator) ** 2 == c.numerator and isqrt(c.denominator) ** 2 == c.denominator:
                return num(Fraction(isqrt(c.numerator), isqrt(c.denominator)))
        return app('sqrt', [a], 'R')
    if name == 'floor':
        if a.sort == 'I': return a
        return app('floor', [a], 'I')
    if name == 'ceil':
        if a.sort == 'I': return a
        return neg(app('floor', [neg(a)], 'I'))
    if name == 'expm1': return sub(mathfn('exp', a), ONE)
    if name == 'log1p': return mathfn('log', add(ONE, a))
    if name == 'exp' and a is ZERO: return ONE
    if name == 'log' and a is ONE: return ZERO
    if name == 'atanh' and a.op == 'app' and a.args[0] == 'tanh': return a.args[1]
    return app(name, [a], 'R')
def mathpow(a, b):
    if isconst(b):
        c = cval(b)
        if isinstance(c, int) and 0 <= c <= 8: return powi(a, c)
        if isinstance(c, int) and -8 <= c < 0: return inv(powi(a, -c))
        if c == Fraction(1, 2): return mathfn('sqrt', a)
    return app('pow', [a, b], 'R')
def c_pow(E, st, args, n):
    return mathpow(_num(E, st, args[0]), _num(E, st, args[1]))
def c_malloc(E, st, args, n): return Raw(_num(E, st, args[0]))
def c_calloc(E, st, args, n):
    return Raw(mul(_num(E, st, args[0]), _num(E, st, args[1])), True)
def c_free(E, st, args, n):
    p = E.expr(st, args[0])
    free_ptr(E, st, p, n.line)
    return ZERO
def free_ptr(E, st, p, line):
    if isinstance(p, Null): return
    if isinstance(p, PIte):
        a = st.copy(); E.branch(a, p.c); b = st.copy(); E.branch(b, not_(p.c))
        if E.feasible(a): free_ptr(E, a, p.a, line)
        else: a = None
        if E.feasible(b): free_ptr(E, b, p.b, line)
        else: b = None
        m = E.merge(a, b)
        st.env, st.heap, st.pc = m.env, m.heap, m.pc
        return
    if not isinstance(p, Ptr):
        E.oblige(st, 'free', FALSE, line, 'free of an uninitialised or unknown pointer'); return
    r = E.regions[p.rid]
    if r.origin not in ('malloc', 'owned'):
        E.oblige(st, 'free', FALSE, line, 'free of %s which is not heap-allocated here' % r.name); return
    E.oblige(st, 'free', and_(eq(p.off, ZERO), st.heap[(p.rid, 'alive')]), line, 'free of %s: start of a live block' % r.name)
    if p.fld is not None: E.oblige(st, 'free', FALSE, line, 'free of interior pointer')
    st.heap[(p.rid, 'alive')] = FALSE
def c_noop(E, st, args, n):
    for a in args:
        if a.ty not in ('char *',):
            try: E.expr(st, a)
            except Unsupported: pass
    return ZERO
def c_exit(E, st, args, n):
    if hasattr(E, 'exit_reached') and E.feasible(st): E.exit_reached(st, TRUE, n.line, 'exit')
    st.pc.append(('b', FALSE)); return ZERO
def strval(E, st, v):
    if isinstance(v, StrLit): return strid(v.s)
    if isinstance(v, Ptr):
        c = st.heap.get((v.rid, v.fld))
        if isinstance(c, T): return c
    raise Unsupported('string value of %r' % (v,))
def c_strcmp(E, st, args, n):
    a = E.expr(st, args[0]); b = E.expr(st, args[1])
    x = strval(E, st, a); y = strval(E, st, b)
    if isconst(x) and isconst(y): return ZERO if x is y else ONE
    return ite(eq(x, y), ZERO, ONE)       # only the zero test is used by callers
def c_strcpy(E, st, args, n):
    d = E.expr(st, args[0]); s = E.expr(st, args[1])
    if isinstance(d, Ptr):
        st.heap[(d.rid, d.fld)] = strval(E, st, s)
        if isinstance(s, StrLit):
            r = E.regions[d.rid]; ln = E.reg_len(r, d.fld)
            E.oblige(st, 'bounds', lt(num(len(s.s.strip('"'))), ln), n.line, 'string fits in %s' % d.fld)
        return d
    raise Unsupported('strcpy')
def c_memcpy(E, st, args, n):
    d = E.expr(st, args[0]); s = E.expr(st, args[1]); sz = _num(E, st, args[2])
    copy_block(E, st, d, s, sz, n.line)
    return d
def copy_block(E, st, d, s, sz, line):
    if isinstance(d, PIte) or isinstance(s, PIte):
        raise Unsupported('memcpy through conditional pointer')
    if isinstance(d, Null) or isinstance(s, Null):
        E.oblige(st, 'null', eq(sz, ZERO), line, 'memcpy with NULL'); return
    if not (isinstance(d, Ptr) and isinstance(s, Ptr)): raise Unsupported('memcpy of %r %r' % (d, s))
    rd, rs = E.regions[d.rid], E.regions[s.rid]
    if rd.struct is not None and d.fld is None:
        if sz is num(E.sizeof(rd.elty)):
            E.store(st, d, E.load(st, s, None, line), line); return
    et = rd.elty if d.fld is None else rd.struct[d.fld]
    m = ARRTY.match(et) if not et.endswith('*') else None
    if m: et = (m.group(1) + m.group(3)).strip()
    if is_ptr_ty(et): raise Unsupported('memcpy of pointers')
    cnt = E.exact_div(sz, E.sizeof(et))
    if cnt is None: raise Unsupported('memcpy size %s' % sz)
    E.check_access(st, s, line, 'memcpy read', n=cnt)
    E.check_access(st, d, line, 'memcpy write', write=True, n=cnt)
    if d.rid == s.rid and d.fld == s.fld:
        E.oblige(st, 'overlap', or_(le(cnt, ZERO), le(add(d.off, cnt), s.off), le(add(s.off, cnt), d.off)), line, 'memcpy regions are disjoint')
    src = st.heap[(s.rid, s.fld)]; dst = st.heap[(d.rid, d.fld)]
    if not (isinstance(src, Arr) and isinstance(dst, Arr)): raise Unsupported('memcpy of non arrays')
    x = fresh('x')
    dec = E.D(st)
    with dec.assume(le(d.off, x), lt(x, add(d.off, cnt))):
        body = aread(src, add(sub(x, d.off), s.off), dec)
    st.heap[(d.rid, d.fld)] = ALam(dst, d.off, add(d.off, cnt), x, body)
def c_memset(E, st, args, n):
    d = E.expr(st, args[0]); v = _num(E, st, args[1]); sz = _num(E, st, args[2])
    if v is not ZERO or not isinstance(d, Ptr): raise Unsupported('memset')
    r = E.regions[d.rid]
    et = r.elty if d.fld is None else r.struct[d.fld]
    cnt = E.exact_div(sz, E.sizeof(et))
    if cnt is None: raise Unsupported('memset size')
    E.check_access(st, d, n.line, 'memset', write=True, n=cnt)
    x = fresh('x')
    st.heap[(d.rid, d.fld)] = ALam(st.heap[(d.rid, d.fld)], d.off, add(d.off, cnt), x, ZERO)
    return d
def c_abs(E, st, args, n): return fabs(_num(E, st, args[0]))
def c_isnan(E, st, args, n):
    E.expr(st, args[0]); E.assumptions.add('isnan/isinf tests are false on real-valued data')
    return ZERO
def c_fmax(E, st, args, n): return imax(_num(E, st, args[0]), _num(E, st, args[1]))
def c_fmin(E, st, args, n): return imin(_num(E, st, args[0]), _num(E, st, args[1]))
def c_fmod(E, st, args, n): return app('fmod', [_num(E, st, a) for a in args], 'R')

BUILTINS = {'malloc': c_malloc, 'calloc': c_calloc, 'free': c_free, 'printf': c_noop, 'fprintf': c_noop, 'exit': c_exit,
            'strcmp': c_strcmp, 'strcpy': c_strcpy, 'memcpy': c_memcpy, 'memmove': c_memcpy, 'memset': c_memset, 'abs': c_abs,
            'pow': c_pow, 'isnan': c_isnan, 'isinf': c_isnan, '__builtin_isnan': c_isnan, '__builtin_isinf_sign': c_isnan,
            'fmax': c_fmax, 'fmin': c_fmin, 'fmod': c_fmod, 'assert': c_noop, 'puts': c_noop, 'putchar': c_noop}
for f in ('sqrt', 'exp', 'log', 'sin', 'cos', 'tan', 'tanh', 'fabs', 'floor', 'ceil', 'log10', 'atan', 'log2', 'tgamma', 'lgamma', 'erf', 'sinh', 'cosh', 'atanh', 'expm1', 'log1p'):
    BUILTINS[f] = f1(f)

# axioms
import smt
def ax_sqrt(u):
    a = u.args[1]
    return [implies(le(ZERO, a), and_(le(ZERO, u), eq(mul(u, u), a))), implies(lt(ZERO, a), lt(ZERO, u))]
def ax_floor(u):
    a = u.args[1]
    return [le(u, a), lt(a, add(u, ONE))]
def ax_exp(u):
    a = u.args[1]
    out = [lt(ZERO, u)]
    if a.op == 'app' and a.args[0] == 'log': out.append(implies(lt(ZERO, a.args[1]), eq(u, a.args[1])))
    return out
def ax_log(u):
    a = u.args[1]
    out = []
    if a.op == 'app' and a.args[0] == 'exp': out.append(eq(u, a.args[1]))
    out += [implies(le(ONE, a), le(ZERO, u)), implies(and_(lt(ZERO, a), lt(a, ONE)), lt(u, ZERO))]
    return out
def ax_tanh(u):
    return [lt(num(-1), u), lt(u, ONE), lt(mul(u, u), ONE)]
smt.APPAX.update({'sqrt': ax_sqrt, 'floor': ax_floor, 'exp': ax_exp, 'log': ax_log, 'tanh': ax_tanh})
