"""Contracts: setup of the symbolic entry state, use at call sites, proof obligations of a function body."""
import ast, re
from term import *
import term as tm
from arrays import *
import arrays as ar
from sym import *
import sym
import dsl
from dsl import SymEnv, ev, parse, PA, ORef, tb, tn
import loops

REG = {}          # name -> Contract
TRUSTED_BASE = ['cdv (this verifier: clang-AST symbolic executor, loop rules, obligation generator)', 'clang 18 parser', 'z3 5.3']
GLOBAL_ASSUMPTIONS = ['double arithmetic is treated as exact real arithmetic (no rounding, overflow, NaN or infinity)',
    'int arithmetic is treated as unbounded (no overflow)', 'malloc/calloc succeed', 'printf has no effect on program state',
    'exit() does not return', 'libm functions are uninterpreted except for the listed elementary facts (sqrt, exp/log inverse pair, sign of log, floor, tanh range)']

class Contract:
    def __init__(self, name, file, params=None, requires=(), ensures=(), loops=None, inline=False, ret=None,
                 trusted=None, alias=(), exits=None, scratch=(), objs=None, replay=None, props=(), note='', allocs=False,
                 cases=None, hints=(), frees=(), unroll=4, facts=(), ghost=(), bounded=None, bounded_runs=400, static=False, weight=1, split=(), residue=None, cuts=None, inlines=()):
        self.inlines = set(inlines)
        self.name = name; self.file = file
        self.params = params or {}
        self.requires = list(requires)
        self.ensures = []
        for i, x in enumerate(ensures):
            if isinstance(x, tuple): self.ensures.append(x)
            else: self.ensures.append(('e%d' % (i + 1), x))
        self.loops = loops or {}
        self.inline = inline
        self.ret = ret            # None | 'new[N]' | 'new[N]?' for pointer results
        self.trusted = trusted    # reason: the contract is assumed, not proved
        self.cuts = cuts or {}
        self.exits = exits        # condition under which the function ends the program (and only then)
        self.alias = alias        # pairs that may be the same pointer: list of (a, b)
        self.objs = objs or {}
        self.replay = replay
        self.props = list(props)
        self.note = note
        self.cases = cases        # extra case splits (list of conditions)
        self.hints = list(hints)
        self.frees = list(frees)
        self.unroll = unroll
        self.facts = list(facts)  # named consequences proved first and then used (lemma chain)
        self.ghost = ghost
        self.bounded = bounded; self.bounded_runs = bounded_runs; self.static = static; self.weight = weight; self.split = list(split); self.residue = residue
        REG[name] = self

    def func(self, P): return P.funcs.get(self.name)

    # ---- parameter specs
    def pspec(self, pname):
        s = self.params.get(pname)
        if s is None: return None
        return PSpec(s)
    def prank(self, pname, ptrs):
        ps = self.pspec(pname)
        if ps is None: return 1
        if ps.obj: return 0
        return 1 + any(re.search(r'(?<![\w.])%s\b' % re.escape(q), ps.len or '') is not None for q in ptrs if not (self.pspec(q) and self.pspec(q).obj))
    def modifies_param(self, i):
        f = self._f
        if f is None: return True
        s = self.pspec(f.params[i][1])
        return s is None or s.mode in ('out', 'inout', 'obj', 'mobj')
    _f = None

class PSpec:
    def __init__(self, s):
        self.raw = s
        self.nullable = s.endswith('?')
        if self.nullable: s = s[:-1]
        self.len = None; self.mode = s; self.obj = None
        m = re.match(r'^(in|out|inout|own)\[(.*)\]$', s)
        if m: self.mode = m.group(1); self.len = m.group(2)
        m = re.match(r'^(obj|mobj)\((\w+)\)$', s)
        if m: self.mode = m.group(1); self.obj = m.group(2)

OBJ = {}   # object specs: name -> {'struct': tag, 'fields': {field: 'inout[N]' ...}, 'inv': [..]}
def objspec(name, struct, fields, inv=(), own=False, flex=None, replay=None):
    OBJ[name] = {'struct': struct, 'fields': fields, 'inv': list(inv), 'flex': flex, 'replay': replay or {}}

class EmptyCase(Exception): pass

class VExec(Exec):
    """Exec that verifies one contract"""
    def __init__(self, P, C, con):
        super().__init__(P, C, con.name)
        self.con = con
        self.UNROLL = con.unroll
        for o, invs in con.loops.items():
            if isinstance(o, tuple): self.loopspec[o] = invs
            else: self.loopspec[(con.name, o)] = invs
        for c in C.values():
            if c.inline:
                for o, invs in c.loops.items(): self.loopspec[(c.name, o)] = invs
        self.inline_here = con.inlines
        self.cuts = {(con.name,) + k: v for k, v in con.cuts.items()}
        self.old = None
        self.entry = {}
        self.caseconds = []; self.residue_r = 0
    def inv_names(self, st):
        fr = self.curframe
        loc = {}
        for nm, key in self.names.get(fr, {}).items():
            v = st.env.get(key)
            if v is not None: loc[nm] = v
        for b, c in getattr(self.curfunobj, 'alias', {}).items():
            if b not in loc and c in loc: loc[b] = loc[c]
        for nm, v in self.entry.items(): loc.setdefault('old_' + nm, v)
        for nm, v in self.entry.items(): loc.setdefault(nm, v)
        return loc
    def eval_inv(self, txt, st, pre=None):
        loc = self.inv_names(st)
        e = SymEnv(self, st, self.old, {}, self.D(st))
        # current locals; parameters' entry values are reachable as old_<name>
        e.names = loc
        if pre is not None: e.pre = (pre, self.inv_names(pre))
        return tb(ev(txt, e))

    def setup(self, variant=()):
        con = self.con; f = con.func(self.P)
        st = State()
        self.curfunobj = f; self.curfun = f.name; self.curret = f.ret
        self.curframe = next(self.frames)
        vals = {}
        env_names = {}
        # scalars first (lengths refer to them)
        for pid, pname, pty in f.params:
            ty = self.resolve_ty(pty)
            if not is_ptr_ty(ty):
                s = self.struct_of(ty)
                vals[pname] = var(pname, sort_of(ty))
                if self.con.residue and self.con.residue[0] == pname:
                    m = self.con.residue[1]     # every integer is m*h + r with 0 <= r < m: one run per residue
                    vals[pname] = add(mul(num(m), var(pname + '_q', 'I')), num(self.residue_r))
            env_names[pname] = None
        for g, srt in con.ghost:
            if srt.startswith('['):
                b = BaseArr(g, srt[1])
                vals[g] = ('ghost', b)
            else: vals[g] = var(g, srt)
        names = {k: v for k, v in vals.items()}
        for k, v in list(names.items()):
            if isinstance(v, tuple): names[k] = dsl.ARef((lambda b: lambda i: read(b, i))(v[1]))
        for g in [x for x, s in con.ghost]: env_names[g] = None
        aliased = dict(variant)      # param -> param it aliases
        pend = [(pid, pname, self.resolve_ty(pty)) for pid, pname, pty in f.params if is_ptr_ty(self.resolve_ty(pty))]
        ptrs = [q[1] for q in pend]
        pend.sort(key=lambda x: con.prank(x[1], ptrs))     # array lengths may refer to objects and to integers passed by reference
        manynull = sum(x.endswith('?') for x in con.params.values()) > 3     # nullness as a symbolic condition
        for pid, pname, ty in pend:
            ps = con.pspec(pname)
            if ps is None: raise Unsupported('no contract for pointer parameter %s' % pname)
            if pname in aliased and aliased[pname] == 'NULL':
                names[pname] = NULL; continue
            if pname in aliased:
                continue
            names[pname] = self.make_param(st, pname, ps, ty, names)
            if ps.nullable and manynull: names[pname] = PIte(var('null_' + pname, 'B'), NULL, names[pname])
        for pid, pname, ty in pend:
            if pname in aliased and aliased[pname] != 'NULL':
                names[pname] = names[aliased[pname]]
                if con.pspec(pname).mode in ('out', 'inout') and isinstance(names[pname], Ptr): self.regions[names[pname].rid].ro = False
        st.pc = list(st.pc)
        for c, val in self.caseconds:
            e = SymEnv(self, st, st, names, self.D(st))
            g = tb(ev(c, e))
            self.assume(st, g if val else not_(g))
        dec = self.D(st)
        self.entry = {k: v for k, v in names.items()}
        for r in con.requires:
            e = SymEnv(self, st, st, names, self.D(st))
            self.assume(st, tb(ev(r, e)))
        for pid, pname, pty in f.params:
            v = names[pname]
            self.vty[(self.curframe, pid)] = self.resolve_ty(pty)
            self.names.setdefault(self.curframe, {})[pname] = (self.curframe, pid)
        self.bind(st, f, [names[p[1]] for p in f.params], self.curframe)
        self.old = st.copy()
        return st, names

    def exit_reached(self, st, c, line, what):
        con = self.con
        g = FALSE
        if con.exits:
            e = SymEnv(self, self.old, self.old, self.entry, self.D(st))
            g = tb(ev(con.exits, e))
        self.oblige(st, 'exit', or_(not_(c), g), line, '%s: the program is ended only if %s' % (what, con.exits or 'never'))

    def make_param(self, st, pname, ps, ty, names):
        et = ty[:-1].strip()
        if ps.mode in ('fn',): return Fn(pname)
        if ps.mode == 'null': return NULL
        if ps.mode == 'any': return PUnk('opaque parameter ' + pname)
        if ps.mode == 'str':
            r = self.new_region(pname, 'char', None, 'param', ro=True)
            st.heap[(r.rid, 'alive')] = TRUE
            v = var('str_' + pname, 'I'); st.heap[(r.rid, None)] = v
            p = Ptr(r.rid)
            names[pname] = p
            return p
        if ps.obj:
            p = self.make_obj(st, pname, OBJ[ps.obj], ps.mode == 'mobj', names, et)
        elif ps.len is not None:
            e = SymEnv(self, st, st, dict(names), self.D(st))
            ln = tn(ev(ps.len, e))
            s = self.struct_of(et)
            r = self.new_region(pname, et, ln, 'owned' if ps.mode == 'own' else 'param', dict(s) if s else None, ro=ps.mode == 'in')
            if s:
                if r.length is ONE: r.length = num(1)
                self.init_region(st, r)
            elif is_ptr_ty(et):
                st.heap[(r.rid, 'alive')] = TRUE; st.heap[(r.rid, None)] = {}
            else:
                b = BaseArr(pname, sort_of(et))
                self.init_region(st, r, ABase(b))
            if ps.mode == 'out' and not s and not is_ptr_ty(et):
                st.heap[(r.rid, None)] = ABase(self.newbase(pname + '_uninit', sort_of(et)))
            p = Ptr(r.rid)
        else: raise Unsupported('parameter spec %s for %s' % (ps.raw, pname))
        return p

    def make_obj(self, st, pname, spec, mutable, names, et):
        s = self.P.structs.get(spec['struct'])
        if s is None: raise Unsupported('no struct %s' % spec['struct'])
        r = self.new_region(pname, 'struct ' + spec['struct'], ONE, 'owned', dict(s), ro=not mutable)
        st.heap[(r.rid, 'alive')] = TRUE
        p = Ptr(r.rid)
        for f, t in s:
            m = ARRTY.match(t) if not t.endswith('*') else None
            if m:
                b = (m.group(1) + m.group(3)).strip()
                if b == 'char': st.heap[(r.rid, f)] = var('%s.%s' % (pname, f), 'I'); r.flen[f] = num(int(m.group(2) or 0))
                elif b in REAL or b in INTS:
                    if f in spec['fields']:
                        pass
                    else: r.flen[f] = num(int(m.group(2) or 0))
                    st.heap[(r.rid, f)] = ABase(BaseArr('%s.%s' % (pname, f), sort_of(b)))
                else: st.heap[(r.rid, f)] = PUnk('field ' + f)
            elif is_ptr_ty(t): st.heap[(r.rid, f)] = PUnk('unspecified field ' + f)
            elif t in REAL or is_int_ty(t): st.heap[(r.rid, f)] = var('%s.%s' % (pname, f), sort_of(t))
            else:
                s2 = self.struct_of(t)
                if s2: self.init_field(st, r, f, t, True)
        # field specs: 'flex[N]', 'buf[N]' own heap buffer, 'at(params, off)', 'obj(X)', 'NULL'
        nm = dict(names)
        for f, t in s:
            if isinstance(st.heap.get((r.rid, f)), T): nm.setdefault(f, st.heap[(r.rid, f)])
        for f, d in spec['fields'].items():
            e = SymEnv(self, st, st, nm, self.D(st))
            m = re.match(r'^(\w+)\((.*)\)$', d) or re.match(r'^(\w+)\[(.*)\]$', d)
            kind = m.group(1) if m else d
            if kind == 'flex': r.flen[f] = tn(ev(m.group(2), e))
            elif kind in ('buf', 'rbuf'):
                ft = dict(s)[f]; et2 = ft[:-1].strip()
                r2 = self.new_region(pname + '.' + f, et2, tn(ev(m.group(2), e)), 'owned', ro=not mutable or kind == 'rbuf')
                self.init_region(st, r2, ABase(BaseArr(pname + '.' + f, sort_of(et2))))
                st.heap[(r.rid, f)] = Ptr(r2.rid)
            elif kind == 'at':
                base, off = [x.strip() for x in m.group(2).split(',', 1)]
                st.heap[(r.rid, f)] = Ptr(r.rid, tn(ev(off, e)), base)
            elif kind in ('obj', 'mobj'):
                st.heap[(r.rid, f)] = self.make_obj(st, pname + '.' + f, OBJ[m.group(2)], mutable, {}, None)
            elif kind == 'NULL': st.heap[(r.rid, f)] = NULL
            elif kind == 'fn': st.heap[(r.rid, f)] = Fn('@' + m.group(2))
            elif kind == 'any': pass
            else: raise Unsupported('field spec ' + d)
        for i in spec['inv']:
            e = SymEnv(self, st, st, nm, self.D(st))
            self.assume(st, tb(ev(i, e)))
        return p

    def run(self, variant=()):
        con = self.con; f = con.func(self.P)
        st, names = self.setup(variant)
        st0 = st.copy()
        self.pre_pc = list(st.conds())
        if not self.feasible(st):
            if self.caseconds: raise EmptyCase()
            raise Unsupported('contradictory precondition')
        fl = {'break': [], 'cont': [], 'ret': [], 'goto': []}
        end = self.stmt(st.copy(), f.body, fl)
        outs = list(fl['ret'])
        if end is not None: outs.append((end, None))
        if fl['goto']: raise Unsupported('unresolved goto')
        self.nexits = len(outs)
        reach = 0
        for s, v in outs:
            if not self.feasible(s): continue
            reach += 1
            self.exit_obls(s, v, names, f)
        self.reach = reach
        return self.obls

    def exit_obls(self, s, v, names, f):
        con = self.con
        line = f.endline
        reach = set()
        def mark(p, s):
            if isinstance(p, Ptr):
                if p.rid in reach: return
                reach.add(p.rid)
                for key, c in s.heap.items():
                    if key[0] == p.rid and isptr(c): mark(c, s)
            elif isinstance(p, PIte): mark(p.a, s); mark(p.b, s)
        if v is not None and isptr(v): mark(v, s)
        for nm, p in names.items():
            if isptr(p): mark(p, s)
        for rid, r in self.regions.items():
            if r.origin == 'malloc' and (rid, 'alive') in s.heap and rid not in reach:
                al = s.heap[(rid, 'alive')]
                if al is FALSE: self.stats['triv'] += 1
                self.oblige(s, 'leak', not_(al), r.line, 'memory allocated at line %d is released before return' % r.line)
            if r.origin == 'owned' and r.name not in con.frees:
                self.oblige(s, 'alive', s.heap[(rid, 'alive')], line, '%s is still live on return' % r.name)
        for nm in con.frees:
            p = names.get(nm)
            if isinstance(p, Ptr): self.oblige(s, 'free', not_(s.heap[(p.rid, 'alive')]), line, '%s is released' % nm)
        if con.ret and isptr(v) and con.ret.startswith('new['):
            m = re.match(r'new\[(.*)\]', con.ret)
            e = SymEnv(self, s, self.old, names, self.D(s), v)
            if isinstance(v, Ptr) and self.regions[v.rid].origin == 'malloc':
                ln = tn(ev(m.group(1), e))
                self.oblige(s, 'post', and_(eq(ln, self.regions[v.rid].length), s.heap[(v.rid, 'alive')], eq(v.off, ZERO)), line, 'result is a fresh block of %s elements' % m.group(1))
            else: self.oblige(s, 'post', FALSE, line, 'result is a fresh block')
        if con.exits:
            e = SymEnv(self, self.old, self.old, names, self.D(s))
            self.oblige(s, 'post', not_(tb(ev(con.exits, e))), line, 'returns normally only if not (%s)' % con.exits, ens='exits')
        for nm, txt in con.facts:
            e = SymEnv(self, s, self.old, names, self.D(s), v)
            g = tb(ev(txt, e))
            self.oblige(s, 'fact', g, line, 'lemma %s: %s' % (nm, txt), ens=None if g is TRUE else nm)
            self.assume(s, g)
        for nm, txt in con.ensures:
            e = SymEnv(self, s, self.old, names, self.D(s), v)
            g = tb(ev(txt, e))
            self.oblige(s, 'post', g, line, 'ensures %s: %s' % (nm, txt), ens=nm)

# ------------------------------------------------------------------------------------ call sites
def defn(node):
    """recognise definitional postconditions. Returns (target, [(k,lo,hi)...], idx ast, rhs ast) or ('result', ...)"""
    qs = []
    n = node
    while isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'forall':
        qs.append((n.args[0].id, n.args[1], n.args[2])); n = n.args[3]
    if not (isinstance(n, ast.Compare) and len(n.ops) == 1 and isinstance(n.ops[0], ast.Eq)): return None
    l, r = n.left, n.comparators[0]
    if isinstance(l, ast.Name) and l.id == 'result' and not qs: return ('result', [], None, r)
    if isinstance(l, ast.Subscript) and isinstance(l.value, ast.Name) and len(qs) <= 2:
        return (l.value.id, qs, l.slice, r)
    if isinstance(l, ast.Attribute) and not qs: return ('attr', [], l, r)
    return None

def names_in(n, skip_old=True):
    out = set()
    def go(n):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name):
            if n.func.id == 'old' and skip_old: return
            for a in n.args: go(a)
            return
        if isinstance(n, ast.Name): out.add(n.id)
        for c in ast.iter_child_nodes(n): go(c)
    go(n)
    return out

def apply(con, E, st, vals, node):
    f = E.P.funcs.get(con.name)
    if f is None: raise Unsupported('callee %s not found' % con.name)
    line = node.line
    names = {}
    for (pid, pname, pty), v in zip(f.params, vals):
        ty = E.resolve_ty(pty)
        if isinstance(v, T) and is_int_ty(ty) and v.sort != 'I': v = trunc(v)
        if isinstance(v, T) and v is ZERO and is_ptr_ty(ty): v = NULL
        names[pname] = v
    mods = []
    spans = []
    old = st.copy()
    for (pid, pname, pty) in f.params:
        ty = E.resolve_ty(pty)
        if not is_ptr_ty(ty): continue
        ps = con.pspec(pname)
        v = names[pname]
        if ps is None: raise Unsupported('no contract for pointer parameter %s of %s' % (pname, con.name))
        if ps.mode in ('str', 'any', 'fn'): 
            continue
        if isinstance(v, Null):
            if not ps.nullable and ps.mode != 'null':
                e = SymEnv(E, st, old, names, E.D(st))
                g = le(tn(ev(ps.len, e)), ZERO) if ps.len else FALSE
                E.oblige(st, 'pre', g, line, 'call %s: %s is not NULL' % (con.name, pname))
            continue
        if ps.obj:
            check_obj(con, E, st, pname, ps, v, line)
            if ps.mode == 'mobj': mods.append((pname, ps, v))
            continue
        if isinstance(v, PIte): 
            raise Unsupported('conditional pointer passed to %s' % con.name)
        if not isinstance(v, Ptr): raise Unsupported('argument %s of %s is %r' % (pname, con.name, v))
        e = SymEnv(E, st, old, names, E.D(st))
        ln = tn(ev(ps.len, e))
        E.check_access(st, v, line, 'argument %s of %s:' % (pname, con.name), write=ps.mode in ('out', 'inout'), n=ln)
        spans.append((pname, v, ln, ps.mode))
        if ps.mode in ('out', 'inout', 'own'): mods.append((pname, ps, v))
    # separation
    ali = set()
    for a in con.alias: ali.add(frozenset(a))
    for i in range(len(spans)):
        for j in range(i + 1, len(spans)):
            a, b = spans[i], spans[j]
            if a[1].rid == b[1].rid and a[1].fld == b[1].fld and (a[3] != 'in' or b[3] != 'in'):
                if frozenset((a[0], b[0])) in ali and a[1].off is b[1].off: continue
                E.oblige(st, 'sep', or_(le(a[2], ZERO), le(b[2], ZERO), le(add(a[1].off, a[2]), b[1].off), le(add(b[1].off, b[2]), a[1].off)),
                         line, 'call %s: %s and %s do not overlap' % (con.name, a[0], b[0]))
    for r in con.requires:
        e = SymEnv(E, st, old, names, E.D(st))
        E.oblige(st, 'pre', tb(ev(r, e)), line, 'call %s requires %s' % (con.name, r))
    if con.exits:
        e = SymEnv(E, st, old, names, E.D(st))
        c = tb(ev(con.exits, e))
        E.exit_reached(st, c, line, 'call of %s' % con.name)
        E.assume(st, not_(c))
    # ghost arguments
    for g, srt in con.ghost: raise Unsupported('call of %s with ghost parameters' % con.name)
    # effects
    undefined = {}
    for pname, ps, v in mods:
        if ps.obj:
            havoc_obj(con, E, st, pname, ps, v); continue
        if ps.mode == 'own':
            st.heap[(v.rid, 'alive')] = FALSE; continue
        r = E.regions[v.rid]
        key = (v.rid, v.fld)
        e = SymEnv(E, st, old, names, E.D(st))
        ln = tn(ev(ps.len, e))
        if r.struct is not None and v.fld is None:
            if r.length is ONE: raise Unsupported('struct out parameter of %s' % con.name)
            for fl_, ft in r.struct.items():
                k2 = (v.rid, fl_); x = fresh('x')
                F = E.newbase('%s.%s.%s' % (con.name, pname, fl_), sort_of(ft))
                if isinstance(st.heap[k2], Arr):
                    st.heap[k2] = ALam(st.heap[k2], v.off, add(v.off, ln), x, read(F, sub(x, v.off)))
            continue
        x = fresh('x')
        cont = st.heap[key]
        if isinstance(cont, Arr):
            F = E.newbase('%s.%s' % (con.name, pname), loops.content_sort(E, key))
            st.heap[key] = ALam(cont, v.off, add(v.off, ln), x, read(F, sub(x, v.off)))
            undefined[pname] = (key, F, v)
        elif isinstance(cont, T):
            st.heap[key] = E.newvar('%s.%s' % (con.name, pname), loops.field_sort(E, key))
        elif isinstance(cont, dict):
            st.heap[key] = {}
        else: raise Unsupported('out parameter content')
    # result
    ret = E.resolve_ty(f.ret)
    result = None
    if is_ptr_ty(ret):
        if con.ret and con.ret.startswith('new['):
            m = re.match(r'new\[(.*)\]', con.ret)
            e = SymEnv(E, st, old, names, E.D(st))
            r = E.new_region('res_' + con.name, ret[:-1].strip(), tn(ev(m.group(1), e)), 'malloc')
            r.line = line
            E.init_region(st, r); result = Ptr(r.rid)
        elif con.ret and con.ret.startswith('obj('):
            result = new_obj(con, E, st, con.ret[4:-1], names, old, line)
        else: result = PUnk('result of ' + con.name)
    elif ret != 'void':
        result = E.newvar('res_' + con.name, sort_of(ret))
    resvar = result
    pend = []
    # definitional postconditions first
    deff = []
    for nm, txt in con.ensures:
        n = parse(txt)
        d = defn(n)
        ok = False
        if d is not None:
            target, qs, idx, rhs = d
            used = names_in(rhs) | (names_in(idx) if idx is not None else set())
            for q in qs: used |= names_in(q[1]) | names_in(q[2])
            if target == 'result':
                if not (used & set(undefined)) and 'result' not in used and not is_ptr_ty(ret):
                    e = SymEnv(E, st, old, names, E.D(st), result)
                    v = tn(ev(rhs, e))
                    if v.sort == 'I' or is_real_ty(ret):
                        result = v; ok = True
            elif target in undefined and not (used & set(undefined)) and (('result' not in used) or result is not resvar):
                ok = define(con, E, st, old, names, undefined[target], qs, idx, rhs, result)
            elif target == 'attr' and isinstance(idx, ast.Attribute) and not (used & set(undefined)) and 'result' not in used:
                e = SymEnv(E, st, old, names, E.D(st), result)
                try: o = ev(idx.value, e)
                except Unsupported: o = None
                if isinstance(o, ORef) and isinstance(o.ptr, Ptr):
                    key = (o.ptr.rid, idx.attr if o.ptr.fld is None else o.ptr.fld + '.' + idx.attr)
                    cur = st.heap.get(key)
                    if isinstance(cur, T) and cur.op == 'var' and cur in E.skolems[-400:]:
                        v = ev(rhs, e)
                        if isinstance(v, T) and cur not in v.fv:
                            st.heap[key] = tn(v); ok = True
        if not ok: pend.append((nm, txt))
    for nm, txt in pend:
        e = SymEnv(E, st, old, names, E.D(st), result)
        E.assume(st, tb(ev(txt, e)))
    if result is None: return ZERO
    return result

def define(con, E, st, old, names, tgt, qs, idx, rhs, result):
    key, F, v = tgt
    e = SymEnv(E, st, old, names, E.D(st), result)
    if not qs:
        i = tn(ev(idx, e)); val = tn(ev(rhs, e))
        st.heap[key] = AStore(st.heap[key], add(v.off, i), val)
        return True
    if len(qs) == 1:
        kn, lo, hi = qs[0]
        lo = tn(ev(lo, e)); hi = tn(ev(hi, e))
        x = fresh('x')
        with e.dec.assume(le(lo, x), lt(x, hi)):
            i = tn(ev(idx, e.bind({kn: x})))
            l = lin(i, x)
            if not l or l[0] not in (1, -1): return False
            val = tn(ev(rhs, e.bind({kn: x})))
        y = fresh('y')
        if l[0] == 1:
            o = add(v.off, l[1])
            st.heap[key] = ALam(st.heap[key], add(lo, o), add(hi, o), y, tm.subst(val, {x: sub(y, o)}))
        else:
            o = add(v.off, l[1])      # cell = o - x
            st.heap[key] = ALam(st.heap[key], add(sub(o, hi), ONE), add(sub(o, lo), ONE), y, tm.subst(val, {x: sub(o, y)}))
        return True
    if len(qs) == 2:
        (k1, lo1, hi1), (k2, lo2, hi2) = qs
        lo1 = tn(ev(lo1, e)); hi1 = tn(ev(hi1, e))
        r = fresh('r'); c = fresh('c')
        with e.dec.assume(le(lo1, r), lt(r, hi1)):
            e1 = e.bind({k1: r})
            lo2 = tn(ev(lo2, e1)); hi2 = tn(ev(hi2, e1))
            with e.dec.assume(le(lo2, c), lt(c, hi2)):
                e2 = e1.bind({k2: c})
                i = tn(ev(idx, e2)); val = tn(ev(rhs, e2))
                l = linpoly(i, r)
                if l is None: return False
                p, rest = l
                l2 = lin(rest, c)
                if not l2 or l2[0] != 1 or c in p.fv:
                    # maybe the second variable is the row
                    return False
                off = l2[1]
                if not e.dec(and_(le(ZERO, c), lt(c, p))): return False
        st.heap[key] = ABox(st.heap[key], add(v.off, off), p, r, lo1, hi1, c, lo2, hi2, val)
        return True
    return False

def check_obj(con, E, st, pname, ps, v, line):
    spec = OBJ[ps.obj]
    if not isinstance(v, Ptr): raise Unsupported('object argument %r' % (v,))
    r = E.regions[v.rid]
    al = st.heap.get((v.rid, 'alive'), TRUE)
    E.oblige(st, 'alive', al, line, 'call %s: %s is live' % (con.name, pname))
    for f, d in spec['fields'].items():
        m = re.match(r'^(\w+)\((.*)\)$', d) or re.match(r'^(\w+)\[(.*)\]$', d)
        kind = m.group(1) if m else d
        cur = st.heap.get((v.rid, f))
        nm = {k[1]: x for k, x in st.heap.items() if k[0] == v.rid and isinstance(k[1], str) and isinstance(x, T)}
        e = SymEnv(E, st, st, nm, E.D(st))
        if kind == 'flex':
            E.oblige(st, 'pre', le(tn(ev(m.group(2), e)), r.flen.get(f, ZERO)), line, 'call %s: %s.%s has %s elements' % (con.name, pname, f, m.group(2)))
        elif kind in ('buf', 'rbuf'):
            if not isinstance(cur, Ptr):
                E.oblige(st, 'pre', FALSE, line, 'call %s: %s.%s points at a buffer' % (con.name, pname, f)); continue
            E.check_access(st, cur, line, 'call %s: %s.%s' % (con.name, pname, f), n=tn(ev(m.group(2), e)))
        elif kind == 'at':
            base, off = [x.strip() for x in m.group(2).split(',', 1)]
            ok = isinstance(cur, Ptr) and cur.rid == v.rid and cur.fld == base
            E.oblige(st, 'pre', eq(cur.off, tn(ev(off, e))) if ok else FALSE, line, 'call %s: %s.%s points at %s+%s' % (con.name, pname, f, base, off))
        elif kind == 'fn':
            if not isinstance(cur, Fn): E.oblige(st, 'pre', FALSE, line, 'call %s: %s.%s is a function' % (con.name, pname, f))
        elif kind in ('obj', 'mobj'):
            if isinstance(cur, Ptr): check_obj(con, E, st, pname + '.' + f, PSpec('obj(%s)' % m.group(2)), cur, line)
            else: E.oblige(st, 'pre', FALSE, line, 'call %s: %s.%s is an object' % (con.name, pname, f))
    nm = {k[1]: x for k, x in st.heap.items() if k[0] == v.rid and isinstance(k[1], str) and isinstance(x, T)}
    for i in spec['inv']:
        e = SymEnv(E, st, st, nm, E.D(st))
        E.oblige(st, 'pre', tb(ev(i, e)), line, 'call %s: %s satisfies %s' % (con.name, pname, i))

def havoc_obj(con, E, st, pname, ps, v):
    """scalar fields and buffers may change; pointers and buffer sizes may not"""
    def go(p):
        r = E.regions[p.rid]
        for key in [k for k in st.heap if k[0] == p.rid and k[1] != 'alive']:
            c = st.heap[key]
            if isinstance(c, Arr): st.heap[key] = ABase(E.newbase('%s.%s' % (con.name, key[1]), loops.content_sort(E, key)))
            elif isinstance(c, T): st.heap[key] = E.newvar('%s.%s' % (con.name, key[1]), c.sort if r.struct is None else field_sort2(E, key))
            elif isinstance(c, Ptr) and c.rid != p.rid:
                go(c)
    go(v)
def field_sort2(E, key): return loops.field_sort(E, key)

def new_obj(con, E, st, oname, names, old, line):
    spec = OBJ[oname]
    s = E.P.structs.get(spec['struct'])
    r = E.new_region('res_' + con.name, 'struct ' + spec['struct'], ONE, 'malloc', dict(s))
    r.line = line
    st.heap[(r.rid, 'alive')] = TRUE
    tag = 'res%d' % next(tm._fresh)
    for f, t in s:
        E.init_field(st, r, f, t, True)
    nm = {k[1]: x for k, x in st.heap.items() if k[0] == r.rid and isinstance(k[1], str) and isinstance(x, T)}
    nm.update(names)
    for f, d in spec['fields'].items():
        e = SymEnv(E, st, st, nm, E.D(st))
        m = re.match(r'^(\w+)\((.*)\)$', d) or re.match(r'^(\w+)\[(.*)\]$', d)
        kind = m.group(1) if m else d
        if kind == 'flex': r.flen[f] = tn(ev(m.group(2), e))
        elif kind in ('buf', 'rbuf'):
            et2 = dict(s)[f][:-1].strip()
            r2 = E.new_region('res_' + f, et2, tn(ev(m.group(2), e)), 'owned')
            E.init_region(st, r2); st.heap[(r.rid, f)] = Ptr(r2.rid)
        elif kind == 'at':
            base, off = [x.strip() for x in m.group(2).split(',', 1)]
            st.heap[(r.rid, f)] = Ptr(r.rid, tn(ev(off, e)), base)
        elif kind == 'NULL': st.heap[(r.rid, f)] = NULL
    for i in spec['inv']:
        e = SymEnv(E, st, st, nm, E.D(st))
        E.assume(st, tb(ev(i, e)))
    return Ptr(r.rid)

def _apply(self, E, st, vals, node): return apply(self, E, st, vals, node)
Contract.apply = _apply

class Program:
    def __init__(self):
        self.funcs = {}; self.structs = {}; self.typedefs = {}
    def addunit(self, u):
        for n, f in u.funcs.items():
            if n not in self.funcs: self.funcs[n] = f
        self.structs.update(u.structs); self.typedefs.update(u.typedefs)
    def global_var(self, n): return None
