"""Symbolic execution of C functions (clang AST) under contracts; loop summarisation; proof obligations."""
import re, itertools, contextlib
from fractions import Fraction
from term import *
import term as tm
from arrays import *
import arrays as ar
from smt import Decider

class Unsupported(Exception): pass

# ---------------------------------------------------------------- values
class Ptr:
    __slots__ = ('rid', 'off', 'fld')
    def __init__(s, rid, off=ZERO, fld=None): s.rid = rid; s.off = off; s.fld = fld
    def __repr__(s): return '&%s%s+%s' % (s.rid, '.' + s.fld if s.fld else '', s.off)
    def same(s, o): return isinstance(o, Ptr) and s.rid == o.rid and s.off is o.off and s.fld == o.fld
class Null:
    def __repr__(s): return 'NULL'
    def same(s, o): return isinstance(o, Null)
NULL = Null()
class PIte:
    __slots__ = ('c', 'a', 'b')
    def __init__(s, c, a, b): s.c = c; s.a = a; s.b = b
    def same(s, o): return isinstance(o, PIte) and s.c is o.c and s.a.same(o.a) and s.b.same(o.b)
class PUnk:
    """uninitialised / unknown pointer"""
    def __init__(s, why=''): s.why = why
    def same(s, o): return s is o
    def __repr__(s): return 'PUnk(%s)' % s.why
class Raw:
    """result of malloc before the cast"""
    __slots__ = ('size', 'zero')
    def __init__(s, size, zero=False): s.size = size; s.zero = zero
    def same(s, o): return s is o
class Fn:
    __slots__ = ('name',)
    def __init__(s, name): s.name = name
    def same(s, o): return isinstance(o, Fn) and o.name == s.name
class StrLit:
    __slots__ = ('s',)
    def __init__(s, v): s.s = v
    def same(s, o): return isinstance(o, StrLit) and s.s == o.s
class Cell:
    """env entry of an address-taken local: lives in a region"""
    __slots__ = ('rid', 'fld')
    def __init__(s, rid): s.rid = rid
    def same(s, o): return isinstance(o, Cell) and s.rid == o.rid
class StructV:
    """struct rvalue"""
    __slots__ = ('fields',)
    def __init__(s, f): s.fields = f

_strids = {}
def strid(s):
    """C string literals as distinct integers (clang prints them quoted)"""
    s = s.strip('"')
    if s not in _strids: _strids[s] = 1000 + len(_strids)
    return num(_strids[s])

def isptr(v): return isinstance(v, (Ptr, Null, PIte, PUnk, Raw, Fn, StrLit))

class Region:
    def __init__(s, rid, name, elty, length, origin, struct=None, ro=False):
        s.rid = rid; s.name = name; s.elty = elty; s.length = length; s.origin = origin
        s.struct = struct      # None | dict field -> type   (length ONE: scalars)
        s.flen = {}            # lengths of embedded array fields
        s.ro = ro
        s.line = 0

class State:
    __slots__ = ('env', 'heap', 'pc')
    def __init__(s): s.env = {}; s.heap = {}; s.pc = []
    def copy(s):
        t = State(); t.env = dict(s.env); t.heap = dict(s.heap); t.pc = list(s.pc); return t
    def conds(s): return [c for k, c in s.pc]

class Obl:
    __slots__ = ('name', 'kind', 'pc', 'goal', 'line', 'desc', 'done', 'ens')
    def __init__(s, kind, pc, goal, line, desc, ens=None):
        s.kind = kind; s.pc = pc; s.goal = goal; s.line = line; s.desc = desc; s.done = False; s.ens = ens

REAL = ('double', 'float', 'long double')
INTS = ('int', 'long', 'short', 'unsigned int', 'unsigned long', 'char', 'size_t', 'long long', 'unsigned long long',
        'unsigned char', 'signed char', 'unsigned short', '_Bool', 'unsigned')
SZ = {'double': 8, 'float': 4, 'int': 4, 'char': 1, 'long': 8, 'short': 2, 'unsigned int': 4, 'unsigned long': 8, 'size_t': 8}

def is_real_ty(t): return t in REAL
def is_int_ty(t): return t in INTS or (t or '').startswith('enum ')
def is_ptr_ty(t): return t is not None and (t.endswith('*') or '(*)' in t or t.endswith(']'))
def sort_of(t): return 'R' if is_real_ty(t) else 'I'
ARRTY = re.compile(r'^(.*?)\s*\[(\d*)\](.*)$')

class Exec:
    def __init__(self, program, contracts, fname):
        self.P = program          # Program: funcs, structs, typedefs
        self.C = contracts
        self.fname = fname
        self.dec = Decider()
        self.dec2 = Decider()
        self.UNROLL = 4
        self.regions = {}
        self.obls = []
        self.quiet = 0
        self.nreg = itertools.count(1)
        self.skolems = []         # fresh unknowns (var T or BaseArr), in creation order
        self.frames = itertools.count(1)
        self.depth = 0
        self.loopno = {}
        self.assumptions = set()
        self.inlined = set(); self.assignno = {}
        self.called = set()
        self.stats = {'loops': 0, 'loop_rules': 0, 'triv': 0}
        self.loopinfo = []
        self.addr_taken_cache = {}
        self.curframe = 0
        self.curfun = fname
        self.loopspec = {}
        self.memlog = None
        self.vty = {}
        self.names = {}
        self.curfunobj = None
        self.curret = None

    # ------------------------------------------------------------ helpers
    def newvar(self, name, sort='I'):
        v = fresh(name, sort); self.skolems.append(v); return v
    def newbase(self, name, sort, ar_=1):
        b = BaseArr('%s!%d' % (name, next(tm._fresh)), sort, ar_); self.skolems.append(b); return b
    def D(self, st):
        self.dec.sync(st.conds()); return self.dec
    def oblige(self, st, kind, goal, line, desc, ens=None):
        if self.quiet: return
        if goal is TRUE: self.stats['triv'] += 1
        o = Obl(kind, tuple(st.conds()), goal, line, desc, ens)
        if goal is TRUE or (ens is None and self.D(st)(goal)): o.done = True
        self.obls.append(o)
    def assume(self, st, c):
        for f in tm_flat(c):
            if f is not TRUE: st.pc.append(('a', f))
    def branch(self, st, c):
        if c is not TRUE: st.pc.append(('b', c))
    def new_region(self, name, elty, length, origin, struct=None, ro=False):
        rid = '%s#%d' % (name, next(self.nreg))
        r = Region(rid, name, elty, length, origin, struct, ro)
        self.regions[rid] = r
        return r
    def sizeof(self, ty):
        ty = ty.strip()
        m = ARRTY.match(ty)
        if m and not ty.endswith('*'):
            return self.sizeof(m.group(1) + m.group(3)) * int(m.group(2) or 0)
        if ty.endswith('*') or '(*' in ty: return 8
        if ty in SZ: return SZ[ty]
        s = self.struct_of(ty)
        if s:
            off = 0; al = 1
            for f, t in s:
                z = self.sizeof(t); a = self.alignof(t)
                al = max(al, a); off = (off + a - 1) // a * a + z
            return (off + al - 1) // al * al
        raise Unsupported('sizeof ' + ty)
    def alignof(self, ty):
        m = ARRTY.match(ty)
        if m and not ty.endswith('*'): return self.alignof(m.group(1) + m.group(3))
        if ty.endswith('*') or '(*' in ty: return 8
        if ty in SZ: return SZ[ty]
        s = self.struct_of(ty)
        return max(self.alignof(t) for f, t in s)
    def struct_of(self, ty):
        ty = ty.strip()
        if ty.startswith('struct '): ty = ty[7:]
        if ty in self.P.structs: return self.P.structs[ty]
        if ty in self.P.typedefs:
            u = self.P.typedefs[ty]
            if u != ty: return self.struct_of(u)
        return None
    def resolve_ty(self, ty):
        if ty is None: return ty
        seen = 0
        star = ''
        t = ty
        while t.endswith('*'):
            t = t[:-1].strip(); star += '*'
        while t in self.P.typedefs and self.P.typedefs[t] != t and seen < 5:
            t = self.P.typedefs[t]; seen += 1
        return t + (' ' + star if star else '')

    # ------------------------------------------------------------ content
    def init_region(self, st, r, content='uninit'):
        st.heap[(r.rid, 'alive')] = TRUE
        if r.struct is None:
            if is_ptr_ty(r.elty):
                st.heap[(r.rid, None)] = {}       # array of pointers: index-term -> value (weak)
            else:
                if content == 'zero': st.heap[(r.rid, None)] = AFun(fresh('x'), ZERO)
                elif isinstance(content, Arr): st.heap[(r.rid, None)] = content
                else: st.heap[(r.rid, None)] = ABase(self.newbase(r.name, sort_of(r.elty)))
        else:
            single = r.length is ONE
            for f, t in r.struct.items():
                self.init_field(st, r, f, t, single)
    def init_field(self, st, r, f, t, single):
        m = ARRTY.match(t) if not t.endswith('*') else None
        if m and single:
            et = (m.group(1) + m.group(3)).strip()
            r.flen[f] = num(int(m.group(2) or 0)) if f not in r.flen else r.flen[f]
            if et == 'char':
                st.heap[(r.rid, f)] = self.newvar(r.name + '.' + f, 'I')
            elif et in REAL or et in INTS:
                st.heap[(r.rid, f)] = ABase(self.newbase(r.name + '.' + f, sort_of(et)))
            else: st.heap[(r.rid, f)] = PUnk('field ' + f)
        elif is_ptr_ty(t):
            st.heap[(r.rid, f)] = PUnk('uninitialised field ' + f) if single else {}
        elif t in REAL or is_int_ty(t):
            if single: st.heap[(r.rid, f)] = self.newvar(r.name + '.' + f, sort_of(t))
            else: st.heap[(r.rid, f)] = ABase(self.newbase(r.name + '.' + f, sort_of(t)))
        else:
            s = self.struct_of(t)
            if s and single:
                for f2, t2 in s: self.init_field(st, r, f + '.' + f2, t2, True)
            else: st.heap[(r.rid, f)] = PUnk('nested struct ' + f)

    def reg_len(self, r, fld):
        if fld is None or r.struct is None: return r.length
        if fld in r.flen: return r.flen[fld]
        return r.length

    def check_access(self, st, p, line, what, write=False, n=None):
        """p: Ptr"""
        r = self.regions[p.rid]
        if self.quiet: return
        ln = self.reg_len(r, p.fld)
        al = st.heap.get((p.rid, 'alive'), TRUE)
        if al is not TRUE:
            self.oblige(st, 'alive', al, line, '%s of %s after free' % (what, r.name))
        if ln is not None:
            g = and_(le(ZERO, p.off), lt(p.off, ln)) if n is None else \
                or_(le(n, ZERO), and_(le(ZERO, p.off), le(add(p.off, n), ln)))
            self.oblige(st, 'bounds', g, line, '%s %s[%s] within %s elements' % (what, r.name, p.off, ln))
        if write and r.ro:
            self.oblige(st, 'frame', FALSE if n is None else le(n, ZERO), line, 'write to read-only %s' % r.name)

    def load(self, st, p, ty, line):
        if isinstance(p, PIte):
            a = st.copy(); self.branch(a, p.c)
            b = st.copy(); self.branch(b, not_(p.c))
            va = self.load(a, p.a, ty, line) if self.feasible(a) else None
            vb = self.load(b, p.b, ty, line) if self.feasible(b) else None
            if va is None: return vb
            if vb is None: return va
            return self.vite(p.c, va, vb, st)
        if isinstance(p, Null):
            self.oblige(st, 'null', FALSE, line, 'NULL dereference')
            return self.anyval(ty)
        if not isinstance(p, Ptr):
            raise Unsupported('load through %r at line %s' % (p, line))
        r = self.regions[p.rid]
        self.check_access(st, p, line, 'read')
        key = (p.rid, p.fld)
        c = st.heap.get(key)
        if c is None:
            if r.struct is not None and p.fld is None:   # whole struct
                out = {}
                for f in r.struct:
                    out[f] = self.load(st, Ptr(p.rid, p.off, f), r.struct[f], line)
                return StructV(out)
            # nested struct?
            sub_ = {k[1]: v for k, v in st.heap.items() if k[0] == p.rid and isinstance(k[1], str) and p.fld and k[1].startswith(p.fld + '.')}
            if sub_: return StructV({k[len(p.fld) + 1:]: v for k, v in sub_.items()})
            raise Unsupported('load of %r' % (key,))
        if isinstance(c, Arr): return aread(c, p.off, self.D(st))
        if isinstance(c, dict):
            for k, v in c.items():
                if k is p.off: return v
            raise Unsupported('load from pointer array %s' % r.name)
        return c

    def store(self, st, p, v, line):
        if isinstance(p, PIte):
            a = st.copy(); self.branch(a, p.c)
            b = st.copy(); self.branch(b, not_(p.c))
            if self.feasible(a): self.store(a, p.a, v, line)
            else: a = None
            if self.feasible(b): self.store(b, p.b, v, line)
            else: b = None
            m = self.merge(a, b)
            st.env, st.heap, st.pc = m.env, m.heap, m.pc
            return
        if isinstance(p, Null):
            self.oblige(st, 'null', FALSE, line, 'NULL dereference'); return
        if not isinstance(p, Ptr): raise Unsupported('store through %r at line %s' % (p, line))
        r = self.regions[p.rid]
        self.check_access(st, p, line, 'write', write=True)
        key = (p.rid, p.fld)
        c = st.heap.get(key)
        if isinstance(v, StructV):
            pre = '' if p.fld is None else p.fld + '.'
            for f, x in v.fields.items():
                if (p.rid, pre + f) not in st.heap: raise Unsupported('struct copy')
                if isinstance(st.heap[(p.rid, pre + f)], Arr) and isinstance(x, T):
                    st.heap[(p.rid, pre + f)] = AStore(st.heap[(p.rid, pre + f)], p.off, x)
                else: st.heap[(p.rid, pre + f)] = x
            return
        if c is None: raise Unsupported('store to %r' % (key,))
        if isinstance(c, Arr):
            if not isinstance(v, T): raise Unsupported('store of pointer in numeric array')
            st.heap[key] = AStore(self.compact(c, p.off), p.off, self.tonum(v))
        elif isinstance(c, dict):
            d = {k: w for k, w in c.items() if self.D(st)(ne(k, p.off))}
            d[p.off] = v; st.heap[key] = d
        else: st.heap[key] = self.tonum(v) if isinstance(v, T) else v
    def compact(self, c, i):
        # drop an immediately overwritten store
        if isinstance(c, AStore) and c.i is i: return c.base
        return c
    def anyval(self, ty):
        if is_ptr_ty(ty): return PUnk('any')
        return self.newvar('any', sort_of(ty))
    def feasible(self, st):
        if any(c is FALSE for c in st.conds()): return False
        d = self.D(st)
        return not d(FALSE)

    def tonum(self, v):
        if v.sort == 'B': return ite(v, ONE, ZERO)
        return v
    def tobool(self, v):
        if isinstance(v, T):
            if v.sort == 'B': return v
            if v.op == 'ite' and isconst(v.args[1]) and isconst(v.args[2]):
                a = cval(v.args[1]) != 0; b = cval(v.args[2]) != 0
                if a and not b: return v.args[0]
                if b and not a: return not_(v.args[0])
            return ne(v, ZERO)
        if isinstance(v, Null): return FALSE
        if isinstance(v, (Ptr, Raw, Fn, StrLit)): return TRUE
        if isinstance(v, PIte): return or_(and_(v.c, self.tobool(v.a)), and_(not_(v.c), self.tobool(v.b)))
        raise Unsupported('truth of %r' % (v,))
    def vite(self, c, a, b, st=None):
        if a is b: return a
        if c is TRUE: return a
        if c is FALSE: return b
        if isinstance(a, T) and isinstance(b, T):
            if a.sort == 'B' and b.sort == 'B': return or_(and_(c, a), and_(not_(c), b))
            return ite(c, self.tonum(a), self.tonum(b))
        if isinstance(a, Arr) and isinstance(b, Arr):
            return amerge(c, a, b, self.D(st) if st is not None else ar.NODEC)
        if isinstance(a, dict) and isinstance(b, dict):
            d = {}
            for k in a:
                if k in b: d[k] = self.vite(c, a[k], b[k], st)
            return d
        if isptr(a) and isptr(b):
            if a.same(b): return a
            if isinstance(a, PUnk): return PUnk('merge') if isinstance(b, PUnk) else PIte(c, a, b)
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.rid == b.rid and a.fld == b.fld:
                return Ptr(a.rid, ite(c, a.off, b.off), a.fld)
            return PIte(c, a, b)
        if isinstance(a, StructV) and isinstance(b, StructV):
            return StructV({f: self.vite(c, a.fields[f], b.fields[f], st) for f in a.fields if f in b.fields})
        if isinstance(a, Cell) and a.same(b): return a
        if a is None or b is None: return None
        raise Unsupported('merge of %r and %r' % (a, b))

    def merge(self, a, b):
        if a is None: return b
        if b is None: return a
        n = 0
        while n < len(a.pc) and n < len(b.pc) and a.pc[n][1] is b.pc[n][1] and a.pc[n][0] == b.pc[n][0]: n += 1
        ra, rb = a.pc[n:], b.pc[n:]
        ca = and_(*[c for k, c in ra if k == 'b']); cb = and_(*[c for k, c in rb if k == 'b'])
        sa = set(tm_flat(ca)); sb = set(tm_flat(cb))
        com = sa & sb
        da = and_(*(sa - com)); db = and_(*(sb - com))
        sel = da
        r = State()
        r.pc = a.pc[:n]
        for c in sorted(com, key=lambda t: t.id): self.branch(r, c)
        if not_(da) is not db:
            self.branch(r, or_(da, db))
        # relevant selector: the shorter one
        if len(list(tm_flat(db))) < len(list(tm_flat(da))) and db is not FALSE:
            sel = None
        seen = set(c for k, c in r.pc)
        fb = set(c for k, c in rb if k == 'a')
        both = [c for k, c in ra if k == 'a' and c in fb]
        for c in both:
            if c not in seen: seen.add(c); r.pc.append(('a', c))
        for rest, cc in ((ra, da), (rb, db)):
            for k, c in rest:
                if k == 'a' and c not in seen:
                    f = guard(cc, c)
                    if f is not TRUE: r.pc.append(('a', f))
        if sel is None: x, y, sel = b, a, db
        else: x, y = a, b
        for k in x.env:
            if k in y.env:
                va, vb = x.env[k], y.env[k]
                r.env[k] = va if va is vb else self.vite(sel, va, vb, r)
        for k in x.heap:
            if k in y.heap:
                va, vb = x.heap[k], y.heap[k]
                r.heap[k] = va if va is vb else self.vite(sel, va, vb, r)
            elif k[1] == 'alive': r.heap[k] = and_(sel, x.heap[k])
            else: r.heap[k] = x.heap[k]
        for k in y.heap:
            if k not in x.heap:
                r.heap[k] = and_(not_(sel), y.heap[k]) if k[1] == 'alive' else y.heap[k]
        return r
    def merge_all(self, l):
        r = None
        for s in l: r = self.merge(r, s)
        return r

    # ------------------------------------------------------------ expressions
    def key(self, n): return (self.curframe, n.ref if n.k == 'DeclRefExpr' else n.id)

    def lval(self, st, n):
        """returns ('v', key) or ('m', pointer)"""
        k = n.k
        if k == 'ParenExpr': return self.lval(st, n.ch[0])
        if k == 'DeclRefExpr':
            key = (self.curframe, n.ref)
            v = st.env.get(key)
            if isinstance(v, Cell):
                r = self.regions[v.rid]
                return ('m', Ptr(v.rid))
            if v is None and key not in st.env:
                g = self.P.global_var(n)
                if g is not None: return ('g', g)
                raise Unsupported('unknown variable %s' % n.name)
            return ('v', key)
        if k == 'ArraySubscriptExpr':
            b = self.expr(st, n.ch[0]); i = self.tonum(self.expr(st, n.ch[1]))
            if isinstance(b, T): b, i = self.expr(st, n.ch[1]), b
            return ('m', self.padd(st, b, i, n.line))
        if k == 'UnaryOperator' and n.op == '*':
            return ('m', self.expr(st, n.ch[0]))
        if k == 'MemberExpr':
            if n.extra: p = self.expr(st, n.ch[0])
            else:
                lv = self.lval(st, n.ch[0])
                if lv[0] != 'm':
                    raise Unsupported('member of non-memory %s' % n.name)
                p = lv[1]
            return ('m', self.pfield(p, n.name, n.line, st))
        if k == 'ImplicitCastExpr' or k == 'CStyleCastExpr': return self.lval(st, n.ch[0])
        raise Unsupported('lvalue %s line %s' % (k, n.line))
    def pfield(self, p, f, line, st):
        if isinstance(p, PIte): return PIte(p.c, self.pfield(p.a, f, line, st), self.pfield(p.b, f, line, st))
        if isinstance(p, Null):
            self.oblige(st, 'null', FALSE, line, 'NULL->%s' % f)
            raise Unsupported('member of NULL')
        if not isinstance(p, Ptr): raise Unsupported('member %s of %r line %s' % (f, p, line))
        return Ptr(p.rid, p.off, f if p.fld is None else p.fld + '.' + f)
    def padd(self, st, p, i, line):
        if isinstance(p, Ptr): return Ptr(p.rid, add(p.off, i), p.fld) if i is not ZERO else p
        if isinstance(p, PIte): return PIte(p.c, self.padd(st, p.a, i, line), self.padd(st, p.b, i, line))
        if isinstance(p, Null): return p
        if isinstance(p, PUnk):
            return p
        raise Unsupported('pointer arithmetic on %r line %s' % (p, line))

    def rd(self, st, lv, ty, line):
        if lv[0] == 'v':
            v = st.env[lv[1]]
            if v is None: raise Unsupported('read of merged-away variable')
            return v
        if lv[0] == 'g': return lv[1]
        # array field decays
        p = lv[1]
        return self.load(st, p, ty, line)
    def wr(self, st, lv, v, line, ty=None):
        if lv[0] == 'v': st.env[lv[1]] = v
        elif lv[0] == 'g': raise Unsupported('write to global')
        else: self.store(st, lv[1], v, line)

    def conv_to(self, v, fromty, toty):
        """C conversion of a numeric value"""
        if not isinstance(v, T): return v
        if is_real_ty(toty): return self.tonum(v)
        if is_int_ty(toty):
            v = self.tonum(v)
            return trunc(v) if v.sort != 'I' or is_real_ty(fromty) else v
        return v

    def expr(self, st, n):
        k = n.k
        if k in ('ParenExpr', 'ConstantExpr'): return self.expr(st, n.ch[0])
        if k == 'IntegerLiteral': return num(int(n.val))
        if k == 'FloatingLiteral': return num(norm(Fraction(repr(float(n.val)))))
        if k == 'CharacterLiteral': return num(int(n.val))
        if k == 'StringLiteral': return StrLit(n.val)
        if k == 'ImplicitCastExpr' or k == 'CStyleCastExpr':
            c = n.cast
            if c == 'LValueToRValue':
                return self.rd(st, self.lval(st, n.ch[0]), n.ty, n.line)
            if c == 'ArrayToPointerDecay':
                if n.ch[0].k == 'StringLiteral': return StrLit(n.ch[0].val)
                if n.ch[0].k == 'ParenExpr': pass
                lv = self.lval(st, n.ch[0])
                if lv[0] == 'm': return lv[1]
                if lv[0] == 'v':
                    v = st.env[lv[1]]
                    return v
                raise Unsupported('array decay')
            if c == 'FunctionToPointerDecay':
                return Fn(n.ch[0].name if n.ch[0].k == 'DeclRefExpr' else n.ch[0].ch[0].name)
            if c in ('NoOp', 'LValueBitCast'): return self.expr(st, n.ch[0])
            if c == 'BitCast':
                v = self.expr(st, n.ch[0])
                if isinstance(v, Raw): return self.alloc(st, v, n.ty, n.line)
                return v
            if c == 'NullToPointer': return NULL
            if c == 'IntegralToPointer':
                return NULL
            if c in ('IntegralToFloating', 'FloatingCast'): return self.tonum(self.expr(st, n.ch[0]))
            if c == 'IntegralCast': return self.expr(st, n.ch[0])
            if c == 'FloatingToIntegral': return trunc(self.tonum(self.expr(st, n.ch[0])))
            if c in ('PointerToBoolean', 'IntegralToBoolean', 'FloatingToBoolean'):
                return self.tobool(self.expr(st, n.ch[0]))
            if c == 'ToVoid': self.expr(st, n.ch[0]); return ZERO
            if c == 'BuiltinFnToFnPtr': return Fn(n.ch[0].name)
            raise Unsupported('cast %s' % c)
        if k == 'DeclRefExpr':
            if n.extra == 'FunctionDecl': return Fn(n.name)
            if n.extra == 'EnumConstantDecl': raise Unsupported('enum')
            return self.rd(st, self.lval(st, n), n.ty, n.line)
        if k == 'UnaryExprOrTypeTraitExpr':
            t = n.extra or n.ch[0].ty
            return num(self.sizeof(self.resolve_ty(t)))
        if k == 'UnaryOperator':
            op = n.op
            if op == '-': return neg(self.tonum(self.expr(st, n.ch[0])))
            if op == '+': return self.expr(st, n.ch[0])
            if op == '!': return not_(self.tobool(self.expr(st, n.ch[0])))
            if op == '&':
                lv = self.lval(st, n.ch[0])
                if lv[0] == 'm': return lv[1]
                if lv[0] == 'v' and isptr(st.env[lv[1]]): return st.env[lv[1]]
                raise Unsupported('& of register variable')
            if op == '*': return self.rd(st, self.lval(st, n), n.ty, n.line)
            if op in ('++', '--'):
                lv = self.lval(st, n.ch[0])
                v = self.rd(st, lv, n.ty, n.line)
                d = ONE if op == '++' else num(-1)
                w = add(self.tonum(v), d) if isinstance(v, T) else self.padd(st, v, d, n.line)
                self.wr(st, lv, w, n.line)
                return v if n.extra else w
            if op == '__extension__': return self.expr(st, n.ch[0])
            raise Unsupported('unary ' + op)
        if k == 'CompoundAssignOperator':
            lv = self.lval(st, n.ch[0])
            b = self.expr(st, n.ch[1])
            a = self.rd(st, lv, n.ty, n.line)
            op = n.op[:-1]
            cty = n.extra
            if isptr(a):
                v = self.padd(st, a, b if op == '+' else neg(b), n.line)
            else:
                v = self.arith(st, op, self.tonum(a), self.tonum(b), cty, n.line)
                v = self.conv_to(v, cty, n.ty)
            self.wr(st, lv, v, n.line)
            return v
        if k == 'BinaryOperator':
            op = n.op
            if op == '=':
                # evaluate the right side first: order is unspecified in C; both orders agree on this code
                v = self.expr(st, n.ch[1])
                lv = self.lval(st, n.ch[0])
                if isinstance(v, Raw): v = self.alloc(st, v, n.ch[0].ty, n.line)
                if isinstance(v, T): v = self.tonum(v)
                self.wr(st, lv, v, n.line)
                return v
            if op == ',':
                self.expr(st, n.ch[0]); return self.expr(st, n.ch[1])
            if op in ('&&', '||'):
                a = self.tobool(self.expr(st, n.ch[0]))
                if a is (FALSE if op == '&&' else TRUE): return a
                s2 = st.copy(); self.branch(s2, a if op == '&&' else not_(a))
                d = self.D(st)
                if d(a if op == '||' else not_(a)): return TRUE if op == '||' else FALSE
                b = self.tobool(self.expr(s2, n.ch[1]))
                if any(s2.env.get(x) is not st.env[x] for x in st.env) or any(s2.heap.get(x) is not st.heap[x] for x in st.heap):
                    s3 = st.copy(); self.branch(s3, not_(a) if op == '&&' else a)
                    m = self.merge(s2, s3)
                    st.env, st.heap, st.pc = m.env, m.heap, m.pc
                else:
                    for kk, c in s2.pc[len(st.pc):]:
                        if kk == 'a': self.assume(st, guard(a if op == '&&' else not_(a), c))
                return and_(a, b) if op == '&&' else or_(a, b)
            a = self.expr(st, n.ch[0]); b = self.expr(st, n.ch[1])
            if isptr(a) or isptr(b): return self.ptrop(st, op, a, b, n)
            if op in ('==', '!=', '<', '<=', '>', '>='):
                if a.sort == 'B' and b.sort == 'B' and op in ('==', '!='):
                    return iff(a, b) if op == '==' else not_(iff(a, b))
                a = self.tonum(a); b = self.tonum(b)
                return {'==': eq, '!=': ne, '<': lt, '<=': le, '>': gt, '>=': ge}[op](a, b)
            return self.arith(st, op, self.tonum(a), self.tonum(b), n.ty, n.line)
        if k == 'ConditionalOperator':
            c = self.tobool(self.expr(st, n.ch[0]))
            d = self.D(st)
            kn = d.known(c)
            if kn is True: return self.expr(st, n.ch[1])
            if kn is False: return self.expr(st, n.ch[2])
            a = st.copy(); self.branch(a, c); va = self.expr(a, n.ch[1])
            b = st.copy(); self.branch(b, not_(c)); vb = self.expr(b, n.ch[2])
            m = self.merge(a, b)
            st.env, st.heap, st.pc = m.env, m.heap, m.pc
            return self.vite(c, va, vb, st)
        if k == 'CallExpr': return self.call(st, n)
        if k == 'ArraySubscriptExpr' or k == 'MemberExpr':
            return self.rd(st, self.lval(st, n), n.ty, n.line)
        if k == 'ImplicitValueInitExpr': return ZERO
        raise Unsupported('expression %s line %s' % (k, n.line))

    def ptrop(self, st, op, a, b, n):
        if op in ('+', '-') and isptr(a) and isinstance(b, T):
            return self.padd(st, a, b if op == '+' else neg(b), n.line)
        if op == '+' and isptr(b) and isinstance(a, T): return self.padd(st, b, a, n.line)
        if op in ('==', '!='):
            r = self.ptreq(a, b)
            return r if op == '==' else not_(r)
        if op in ('-', '<', '<=', '>', '>=') and isinstance(a, Ptr) and isinstance(b, Ptr) and a.rid == b.rid:
            if op == '-': return sub(a.off, b.off)
            return {'<': lt, '<=': le, '>': gt, '>=': ge}[op](a.off, b.off)
        raise Unsupported('pointer operation %s' % op)
    def ptreq(self, a, b):
        if isinstance(a, T): a = NULL if a is ZERO else a
        if isinstance(b, T): b = NULL if b is ZERO else b
        if isinstance(a, PIte): return or_(and_(a.c, self.ptreq(a.a, b)), and_(not_(a.c), self.ptreq(a.b, b)))
        if isinstance(b, PIte): return self.ptreq(b, a)
        if isinstance(a, Null) or isinstance(b, Null):
            if isinstance(a, Null) and isinstance(b, Null): return TRUE
            o = b if isinstance(a, Null) else a
            if isinstance(o, PUnk): raise Unsupported('comparison of unknown pointer with NULL')
            return FALSE
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.rid != b.rid or a.fld != b.fld: return FALSE
            return eq(a.off, b.off)
        if isinstance(a, Fn) and isinstance(b, Fn): return TRUE if a.name == b.name else FALSE
        raise Unsupported('pointer comparison')

    def arith(self, st, op, a, b, ty, line):
        if op == '+': return add(a, b)
        if op == '-': return sub(a, b)
        if op == '*': return mul(a, b)
        if op == '/':
            if is_real_ty(ty): return div(a, b)
            if not isconst(b) or cval(b) == 0:
                self.oblige(st, 'div0', ne(b, ZERO), line, 'integer division by zero')
            return self.idiv(st, a, b)
        if op == '%':
            if not isconst(b) or cval(b) == 0:
                self.oblige(st, 'div0', ne(b, ZERO), line, 'integer remainder by zero')
            return self.imod(st, a, b)
        if op == '<<' and isconst(b): return mul(a, num(2 ** cval(b)))
        if op == '>>' and isconst(b): return tdiv(a, num(2 ** cval(b)))
        if op in ('&', '|', '^') :
            if op == '&' and b is ONE:
                r = tmod(a, num(2))
                return ite(lt(r, ZERO), neg(r), r)
            if isconst(a) and isconst(b):
                x, y = cval(a), cval(b)
                return num(x & y if op == '&' else x | y if op == '|' else x ^ y)
        raise Unsupported('operator %s' % op)
    def idiv(self, st, a, b):
        # exact division: a = q*b syntactically
        if a.op == 'const' and cval(a) == 0: return ZERO
        dm = divmod_poly(a, b) if b is not ZERO else None
        if dm is not None:
            q, r = dm
            if r is ZERO and (isconst(b) or self.D(st)(ne(b, ZERO))): return q
            # a = q*b + r with 0<=r<b and a>=0
            if q is not ZERO and self.D(st)(and_(le(ZERO, r), lt(r, b), le(ZERO, a))): return q
        return tdiv(a, b)
    def imod(self, st, a, b):
        dm = divmod_poly(a, b) if b is not ZERO else None
        if dm is not None:
            q, r = dm
            if r is ZERO and (isconst(b) or self.D(st)(ne(b, ZERO))): return ZERO
            if q is not ZERO and self.D(st)(and_(le(ZERO, r), lt(r, b), le(ZERO, a))): return r
        if self.D(st)(and_(le(ZERO, a), lt(a, b))): return a
        return tmod(a, b)

    # ------------------------------------------------------------ allocation
    def alloc(self, st, raw, ty, line, name=None):
        ty = self.resolve_ty(ty)
        et = ty[:-1].strip() if ty.endswith('*') else ty
        size = raw.size
        s = self.struct_of(et)
        if s is not None:
            sz = self.sizeof(et)
            flex = None
            lastf, lastt = s[-1]
            m = ARRTY.match(lastt)
            one = False
            if m and m.group(2) == '1' and (m.group(1) + m.group(3)).strip() == 'double' and self.exact_div(size, sz) is None:
                flex = (lastf, 'double'); one = True      # 'double x[1]' used as a trailing array: the declared element counts
            if m and m.group(2) in ('0', '') :
                flex = (lastf, (m.group(1) + m.group(3)).strip())
            if flex:
                ln = sub(size, num(sz))
                dm = self.exact_div(ln, self.sizeof(flex[1]))
                if dm is None:
                    # e.g. sizeof(struct) + 8*n : size may use another struct's sizeof
                    raise Unsupported('flexible array size %s' % size)
                r = self.new_region('heap%d' % line, et, ONE, 'malloc', dict(s))
                r.flen[flex[0]] = add(dm, ONE) if one else dm
                self.oblige(st, 'alloc', le(ZERO, dm), line, 'allocation covers the structure')
            else:
                cnt = self.exact_div(size, sz)
                if cnt is None: raise Unsupported('struct allocation size')
                r = self.new_region('heap%d' % line, et, cnt, 'malloc', dict(s))
        else:
            if et == 'void' or et == 'char': et = 'char'
            cnt = self.exact_div(size, self.sizeof(et))
            if cnt is None: raise Unsupported('allocation size %s for %s' % (size, et))
            r = self.new_region('heap%d' % line, et, cnt, 'malloc')
        r.line = line
        self.init_region(st, r, 'zero' if raw.zero else 'uninit')
        return Ptr(r.rid)
    def exact_div(self, t, c):
        if c == 1: return t
        d = {}
        for m, k in pd(t).items():
            if isinstance(k, int) and k % c == 0: d[m] = k // c
            else: return None
        return from_pd(d)

    # ------------------------------------------------------------ statements
    # flow: dict with lists 'break','cont','ret' ; returns the normal state or None
    def stmt(self, st, n, fl):
        if st is None or n is None: return st
        k = n.k
        if k == 'BinaryOperator' and n.op == '=' and self.cuts and n.ch[0].k == 'DeclRefExpr': self.do_cut(st, n)
        if self.cuts and k in ('ForStmt', 'WhileStmt', 'DoStmt'):
            c = self.cuts.get((self.curfun, 'loop', self.loop_ordinal(n)))
            if c is not None: self.cut_at(st, n, self.curfunobj, c, 'a loop')
        if k == 'CompoundStmt':
            if any(c is not None and c.k == 'LabelStmt' for c in n.ch): return self.labelled(st, n, fl)
            for c in n.ch:
                st = self.stmt(st, c, fl)
                if st is None: return None
            return st
        if k == 'DeclStmt':
            for v in n.ch:
                if v.k == 'VarDecl': self.decl(st, v)
            return st
        if k == 'NullStmt': return st
        if k == 'IfStmt':
            c = self.tobool(self.expr(st, n.ch[0]))
            d = self.D(st)
            kn = d.known(c)
            if kn is True: return self.stmt(st, n.ch[1], fl)
            if kn is False: return self.stmt(st, n.ch[2], fl) if len(n.ch) > 2 else st
            a = st.copy(); self.branch(a, c)
            b = st; self.branch(b, not_(c))
            a = self.stmt(a, n.ch[1], fl)
            if len(n.ch) > 2: b = self.stmt(b, n.ch[2], fl)
            return self.merge(a, b)
        if k == 'ReturnStmt':
            v = self.expr(st, n.ch[0]) if n.ch else None
            if isinstance(v, Raw): v = self.alloc(st, v, self.curret, n.line)
            if isinstance(v, T): v = self.tonum(v)
            fl['ret'].append((st, v)); return None
        if k == 'BreakStmt': fl['break'].append(st); return None
        if k == 'ContinueStmt': fl['cont'].append(st); return None
        if k == 'ForStmt':
            init, cv, cond, inc, body = n.ch
            st = self.stmt(st, init, fl)
            return self.loop(st, cond, inc, body, n, fl)
        if k == 'WhileStmt':
            return self.loop(st, n.ch[0], None, n.ch[1], n, fl)
        if k == 'DoStmt':
            # peel the first iteration, then it is a while loop
            f2 = {'break': [], 'cont': [], 'ret': fl['ret'], 'goto': fl['goto']}
            st = self.stmt(st, n.ch[0], f2)
            st = self.merge_all([s for s in [st] + f2['cont'] if s is not None])
            out = None
            if st is not None: out = self.loop(st, n.ch[1], None, n.ch[0], n, fl)
            return self.merge_all([s for s in [out] + f2['break'] if s is not None])
        if k == 'SwitchStmt': return self.switch(st, n, fl)
        if k == 'GotoStmt':
            fl['goto'].append((n.ref, st)); return None
        if k == 'LabelStmt': return self.stmt(st, n.ch[0], fl)
        if k == 'AttributedStmt': return self.stmt(st, n.ch[-1], fl)
        # expression statement
        r = self.expr(st, n)
        if st.pc and st.pc[-1][1] is FALSE: return None
        return st

    def labelled(self, st, n, fl):
        """forward gotos within one compound statement"""
        f2 = dict(fl); f2['goto'] = []
        pend = f2['goto']
        for c in n.ch:
            if c is not None and c.k == 'LabelStmt':
                mine = [s for (l, s) in pend if l == c.ref]
                pend[:] = [(l, s) for (l, s) in pend if l != c.ref]
                st = self.merge_all([s for s in [st] + mine if s is not None])
            if st is None: 
                continue
            st = self.stmt(st, c, f2)
            # a goto to a label already passed is a backward jump
        done = [c.ref for c in n.ch if c is not None and c.k == 'LabelStmt']
        for l, s in pend:
            if l in done: raise Unsupported('backward goto')
            fl['goto'].append((l, s))
        return st

    def switch(self, st, n, fl):
        v = self.tonum(self.expr(st, n.ch[0]))
        body = n.ch[-1]
        items = []
        def add_case(c):
            if c.k == 'CaseStmt':
                val = self.expr(st, c.ch[0]); items.append(('case', val)); 
                s = c.ch[-1]
                add_case(s) if s.k in ('CaseStmt', 'DefaultStmt') else items.append(('stmt', s))
            elif c.k == 'DefaultStmt':
                items.append(('default', None))
                s = c.ch[0]
                add_case(s) if s.k in ('CaseStmt', 'DefaultStmt') else items.append(('stmt', s))
            else: items.append(('stmt', c))
        for c in body.ch: add_case(c)
        f2 = {'break': [], 'cont': fl['cont'], 'ret': fl['ret'], 'goto': fl['goto']}
        vals = [x for t, x in items if t == 'case']
        cur = None; hasdef = False
        for t, x in items:
            if t == 'case':
                e = st.copy(); self.branch(e, eq(v, x))
                cur = self.merge(cur, e) if self.feasible(e) else cur
            elif t == 'default':
                hasdef = True
                e = st.copy()
                for y in vals: self.branch(e, ne(v, y))
                cur = self.merge(cur, e) if self.feasible(e) else cur
            elif cur is not None: cur = self.stmt(cur, x, f2)
        outs = [s for s in [cur] + f2['break'] if s is not None]
        if not hasdef:
            e = st.copy()
            for y in vals: self.branch(e, ne(v, y))
            if self.feasible(e): outs.append(e)
        return self.merge_all(outs)

    def decl(self, st, v):
        key = (self.curframe, v.id)
        ty = self.resolve_ty(v.ty)
        self.vty[key] = ty; self.names.setdefault(self.curframe, {})[v.name] = key
        if v.extra == 'static': raise Unsupported('static local %s' % v.name)
        init = v.ch[0] if v.ch else None
        m = ARRTY.match(ty) if not ty.endswith('*') else None
        if m:
            et = (m.group(1) + m.group(3)).strip(); ln = m.group(2)
            if ARRTY.match(et): raise Unsupported('2-D local array')
            if ln == '': raise Unsupported('VLA')
            s = self.struct_of(et)
            r = self.new_region(v.name, et, num(int(ln)), 'local', dict(s) if s else None)
            self.init_region(st, r)
            st.env[key] = Ptr(r.rid) if False else Cell(r.rid)
            if init is not None:
                if init.k == 'StringLiteral': return
                vals = [self.expr(st, c) for c in init.ch]
                c = st.heap[(r.rid, None)]
                if len(vals) < int(ln): c = AFun(fresh('x'), ZERO)
                for i, x in enumerate(vals): c = AStore(c, num(i), self.tonum(x))
                st.heap[(r.rid, None)] = c
            return
        s = self.struct_of(ty) if not ty.endswith('*') else None
        if s is not None:
            r = self.new_region(v.name, ty, ONE, 'local', dict(s))
            self.init_region(st, r); st.env[key] = Cell(r.rid)
            if init is not None and init.k == 'InitListExpr':
                for (f, ft), c in zip(s, init.ch):
                    if c.k == 'ImplicitValueInitExpr': raise Unsupported('partial struct initialiser')
                    x = self.expr(st, c)
                    st.heap[(r.rid, f)] = self.tonum(x) if isinstance(x, T) else x
            elif init is not None:
                x = self.expr(st, init)
                self.store(st, Ptr(r.rid), x, v.line)
            return
        if init is not None:
            x = self.expr(st, init)
            if isinstance(x, Raw): x = self.alloc(st, x, ty, v.line)
            if isinstance(x, T): x = self.tonum(x)
        elif is_ptr_ty(ty): x = PUnk('uninitialised ' + v.name)
        else: x = self.newvar(v.name + '_uninit', sort_of(ty))
        if v.id in self.addr_taken():
            r = self.new_region(v.name, ty, ONE, 'local')
            if is_ptr_ty(ty):
                st.heap[(r.rid, 'alive')] = TRUE; st.heap[(r.rid, None)] = {ZERO: x}
            else:
                self.init_region(st, r, AStore(ABase(self.newbase(v.name, sort_of(ty))), ZERO, x))
            st.env[key] = Cell(r.rid)
        else: st.env[key] = x

    def addr_taken(self):
        f = self.curfunobj
        if f.name not in self.addr_taken_cache:
            out = set()
            def go(n):
                if n is None: return
                if n.k == 'UnaryOperator' and n.op == '&':
                    c = n.ch[0]
                    while c.k == 'ParenExpr': c = c.ch[0]
                    if c.k == 'DeclRefExpr': out.add(c.ref)
                for c in n.ch: go(c)
            go(f.body)
            self.addr_taken_cache[f.name] = out
        return self.addr_taken_cache[f.name]

    # ------------------------------------------------------------ calls
    def call(self, st, n):
        callee = n.ch[0]
        while callee.k in ('ImplicitCastExpr', 'ParenExpr') or (callee.k == 'UnaryOperator' and callee.op == '*'): callee = callee.ch[0]
        fv = self.rd(st, self.lval(st, callee), callee.ty, n.line) if callee.k == 'MemberExpr' else self.expr(st, n.ch[0])
        args = n.ch[1:]
        if isinstance(fv, Ptr) or isinstance(fv, PUnk) or not isinstance(fv, Fn):
            vals = [self.expr(st, a) for a in args]
            return self.indirect(st, fv, vals, n)
        name = fv.name
        if name.startswith('@'):
            vals = [self.expr(st, a) for a in args]
            return self.callback(st, name[1:], vals, n)
        from builtins_c import BUILTINS
        if name in self.P.funcs or self.C.get(name):
            vals = [self.expr(st, a) for a in args]
            vals = [self.tonum(v) if isinstance(v, T) else v for v in vals]
            c = self.C.get(name)
            if c is not None and not (c.inline) and name not in self.inline_here:
                self.called.add(name)
                return c.apply(self, st, vals, n)
            return self.inline(st, self.P.funcs[name], vals, n.line)
        if name in BUILTINS:
            return BUILTINS[name](self, st, args, n)
        raise Unsupported('call of %s' % name)
    cuts = None; inline_here = ()
    def do_cut(self, st, n):
        """an assertion before the n-th assignment to a local: proved, then the listed locals are known only through it"""
        f = self.curfunobj
        if f.name not in self.assignno:
            d = {}; cnt = {}
            def go(m):
                if m is None: return
                if m.k == 'BinaryOperator' and m.op == '=' and m.ch[0].k == 'DeclRefExpr':
                    x = m.ch[0].name; d[m.id] = (x, cnt.get(x, 0)); cnt[x] = cnt.get(x, 0) + 1
                for c in m.ch: go(c)
            go(f.body); self.assignno[f.name] = d
        key = self.assignno[f.name].get(n.id)
        if key is None: return
        rev = {c: b for b, c in (getattr(f, 'alias', None) or {}).items()}
        key = (rev.get(key[0], key[0]), key[1])
        c = self.cuts.get((f.name,) + key)
        if c is None: return
        self.cut_at(st, n, f, c, 'the assignment of %s' % key[0])
    def cut_at(self, st, n, f, c, where):
        facts, hav = c
        for t in facts:
            g = self.eval_inv(t, st)
            self.oblige(st, 'cut', g, n.line, 'assertion before %s: %s' % (where, t))
            self.assume(st, g)
        loc = self.names.get(self.curframe, {})
        gs = list(facts)
        for v in hav:
            kk = loc.get(v) or loc.get((getattr(f, 'alias', None) or {}).get(v))
            vv = st.env.get(kk) if kk is not None else None
            if isinstance(vv, Cell): vv = Ptr(vv.rid)
            if isinstance(vv, Ptr) and isinstance(st.heap.get((vv.rid, vv.fld)), Arr):
                import loops
                st.heap[(vv.rid, vv.fld)] = ABase(self.newbase(v + '_cut', loops.content_sort(self, (vv.rid, vv.fld))))
                continue
            if not isinstance(vv, T): continue
            st.env[kk] = self.newvar(v + '_cut', st.env[kk].sort)
        for t in facts: self.assume(st, self.eval_inv(t, st))
    def callback(self, st, name, vals, n):
        self.assumptions.add('a caller-supplied function does not modify memory of the callee, and its value depends only on its arguments')
        if n.ty == 'void': raise Unsupported('callback with output arguments')
        if all(isinstance(v, T) or isinstance(v, (PUnk, Null)) for v in vals):
            return app('cb_' + name, [self.tonum(v) for v in vals if isinstance(v, T)], sort_of(n.ty))
        return self.newvar('cb_' + name, sort_of(n.ty))
    def indirect(self, st, fv, vals, n):
        raise Unsupported('indirect call')

    def bind(self, st, f, vals, frame):
        for (pid, pname, pty), v in zip(f.params, vals):
            pty = self.resolve_ty(pty)
            self.vty[(frame, pid)] = pty; self.names.setdefault(frame, {})[pname] = (frame, pid)
            if isinstance(v, T):
                v = self.conv_to(v, None, pty) if is_int_ty(pty) and v.sort != 'I' else v
            if pid in self.addr_taken() and not isptr(v):
                r = self.new_region(pname, pty, ONE, 'local')
                self.init_region(st, r, AStore(ABase(self.newbase(pname, sort_of(pty))), ZERO, v))
                st.env[(frame, pid)] = Cell(r.rid)
            else: st.env[(frame, pid)] = v

    def inline(self, st, f, vals, line):
        if self.depth > 12: raise Unsupported('inlining too deep (recursion?) in %s' % f.name)
        self.inlined.add(f.name)
        saved = (self.curframe, self.curfun, self.curfunobj, self.curret)
        self.depth += 1
        self.curframe = next(self.frames); self.curfun = f.name; self.curfunobj = f; self.curret = f.ret
        st0 = st.copy()
        self.bind(st0, f, vals, self.curframe)
        fl = {'break': [], 'cont': [], 'ret': [], 'goto': []}
        end = self.stmt(st0, f.body, fl)
        frame = self.curframe
        self.depth -= 1
        self.curframe, self.curfun, self.curfunobj, self.curret = saved
        outs = list(fl['ret'])
        if end is not None: outs.append((end, None))
        if not outs:
            st.pc.append(('a', FALSE)); return ZERO
        TMP = ('retval', frame)
        ss = []
        for s, v in outs:
            s.env = {k: x for k, x in s.env.items() if k[0] != frame}
            if v is not None: s.env[TMP] = v
            ss.append(s)
        m = self.merge_all(ss)
        v = m.env.pop(TMP, None)
        st.env, st.heap, st.pc = m.env, m.heap, m.pc
        return v if v is not None else ZERO

    def loop_spec(self, node):
        return self.loopspec.get((self.curfun, self.loop_ordinal(node)))
    def loop_ordinal(self, node):
        f = self.curfunobj
        if f.name not in self.loopno:
            d = {}
            def go(n):
                if n is None: return
                if n.k in ('ForStmt', 'WhileStmt', 'DoStmt'): d[n.id] = len(d)
                for c in n.ch: go(c)
            go(f.body)
            self.loopno[f.name] = d
        return self.loopno[f.name].get(node.id)
    def eval_inv(self, txt, st):
        raise Unsupported('no invariant evaluator')

    def loop(self, st, cond, inc, body, n, fl):
        from loops import do_loop
        return do_loop(self, st, cond, inc, body, n, fl)

def tm_flat(f):
    if f.op == 'and':
        for a in f.args: yield from tm_flat(a)
    else: yield f

def guard(c, f):
    """c -> f, keeping a forall at the top"""
    if c is TRUE: return f
    if f.op == 'forall':
        return forall(f.args[0], implies(c, f.args[1]))
    return implies(c, f)
