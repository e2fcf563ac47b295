"""Loop rule.  One generic iteration k is executed symbolically; the values at the start of iteration k are put in
closed form (affine counters, sums, block updates, recurrences); each closed form is inductive by construction
(value at 0 = entry value, value at k+1 = value after the body), which is what the rules below establish.
Unresolved values become an uninterpreted trace indexed by k, about which only proved invariants are known."""
from term import *
import term as tm
from arrays import *
import arrays as ar
from sym import *

ASSIGN = ('BinaryOperator', 'CompoundAssignOperator')

def strip(n):
    while n.k in ('ParenExpr', 'ImplicitCastExpr', 'CStyleCastExpr'): n = n.ch[0]
    return n

def scan(E, st, cond, inc, body):
    mods = {}        # declref id -> list of (node, where)
    keys = set()
    lvs = []
    flags = {'cont': False}
    def lv(n, node, where):
        n = strip(n)
        if n.k == 'DeclRefExpr':
            mods.setdefault(n.ref, []).append((node, where))
        lvs.append(n)
    def go(n, where, depth):
        if n is None: return
        if n.k in ASSIGN and (n.op == '=' or n.k == 'CompoundAssignOperator'): lv(n.ch[0], n, where)
        elif n.k == 'UnaryOperator' and n.op in ('++', '--'): lv(n.ch[0], n, where)
        elif n.k == 'UnaryOperator' and n.op == '&':
            m = strip(n.ch[0])
            if m.k == 'DeclRefExpr': mods.setdefault(m.ref, []).append((n, 'addr'))
            lvs.append(m)
        elif n.k == 'ContinueStmt' and depth == 0: flags['cont'] = True
        elif n.k == 'CallExpr':
            for a in n.ch[1:]:
                if is_ptr_ty(a.ty): lvs.append(('ptr', a, n))
        if n.k in ('ForStmt', 'WhileStmt', 'DoStmt'):
            for c in n.ch: go(c, 'nested', depth + 1)
        elif n.k in ('IfStmt', 'SwitchStmt', 'ConditionalOperator') or (n.k == 'BinaryOperator' and n.op in ('&&', '||')):
            for c in n.ch: go(c, 'nested', depth)
        else:
            for c in n.ch: go(c, where, depth)
    go(cond, 'cond', 0); go(inc, 'inc', 0)
    go(body, 'top', 0)
    # regions
    for n in lvs:
        if isinstance(n, tuple):
            _, a, call = n
            c = strip(call.ch[0])
            con = E.C.get(c.name) if c.k == 'DeclRefExpr' else None
            a = strip(a)
            if con is not None and not con.inline and c.name not in E.inline_here:
                i = [strip(x) for x in call.ch[1:]].index(a)
                if not con.modifies_param(i): continue
            elif c.k == 'DeclRefExpr' and c.name in ('free', 'printf', 'strcmp', 'sqrt', 'exit'): continue
            elif c.k == 'DeclRefExpr' and c.name in ('memcpy', 'memset', 'memmove'):
                if a is not strip(call.ch[1]): continue
            else: continue      # inlined: found dynamically
            base = a
        else:
            if n.k == 'ArraySubscriptExpr': base = strip(n.ch[0])
            elif n.k == 'UnaryOperator' and n.op == '*': base = strip(n.ch[0])
            elif n.k == 'MemberExpr':
                b = strip(n.ch[0])
                if b.k == 'DeclRefExpr' and b.ref not in mods:
                    v = st.env.get((E.curframe, b.ref))
                    if isinstance(v, Cell): v = Ptr(v.rid)
                    if isinstance(v, Ptr): keys.add((v.rid, n.name))
                continue
            elif n.k == 'DeclRefExpr':
                v = st.env.get((E.curframe, n.ref))
                if isinstance(v, Cell): keys.add((v.rid, None))
                continue
            else: continue
        while base.k == 'BinaryOperator' and base.op in ('+', '-'): base = strip(base.ch[0])
        if base.k == 'UnaryOperator' and base.op == '&': base = strip(strip(base.ch[0]))
        if base.k == 'ArraySubscriptExpr': base = strip(base.ch[0])
        if base.k == 'DeclRefExpr':
            v = st.env.get((E.curframe, base.ref))
            if isinstance(v, Cell):
                v = Ptr(v.rid)
            if base.ref not in mods or (isinstance(v, Ptr)):
                if isinstance(v, Ptr): keys.add((v.rid, v.fld))
        elif base.k == 'MemberExpr':
            b = strip(base.ch[0])
            if b.k == 'DeclRefExpr' and b.ref not in mods:
                v = st.env.get((E.curframe, b.ref))
                if isinstance(v, Cell): v = Ptr(v.rid)
                if isinstance(v, Ptr):
                    f = base.name if v.fld is None else v.fld + '.' + base.name
                    c = st.heap.get((v.rid, f))
                    if isinstance(c, Ptr): keys.add((c.rid, c.fld))
                    elif isinstance(c, Arr): keys.add((v.rid, f))
    keys = {k for k in keys if k in st.heap}
    return mods, keys, flags

def syntactic_counters(E, st, mods, flags):
    """variables with exactly one modification, a constant step, executed once per iteration"""
    out = {}
    for ref, l in mods.items():
        key = (E.curframe, ref)
        v0 = st.env.get(key)
        if len(l) != 1: continue
        node, where = l[0]
        if where == 'inc' or (where == 'top' and not flags['cont']): pass
        else: continue
        if not (isinstance(v0, T) and sort_of(E.vty.get(key, 'double')) == 'I' or isinstance(v0, Ptr)): continue
        step = None
        if node.k == 'UnaryOperator' and node.op in ('++', '--'):
            step = ONE if node.op == '++' else num(-1)
        else:
            e = None; sg = 1
            if node.k == 'CompoundAssignOperator' and node.op in ('+=', '-='):
                e = node.ch[1]; sg = 1 if node.op == '+=' else -1
            elif node.k == 'BinaryOperator' and node.op == '=':
                b = strip(node.ch[1])
                if b.k == 'BinaryOperator' and b.op in ('+', '-'):
                    l0, r0 = strip(b.ch[0]), strip(b.ch[1])
                    if l0.k == 'DeclRefExpr' and l0.ref == ref: e = r0; sg = 1 if b.op == '+' else -1
                    elif r0.k == 'DeclRefExpr' and r0.ref == ref and b.op == '+': e = l0
            if e is None: continue
            step = const_expr(E, st, e, mods)
            if step is None: continue
            if sg < 0: step = neg(step)
        out[key] = step
    return out

def const_expr(E, st, e, mods):
    e = strip(e)
    if e.k == 'IntegerLiteral': return num(int(e.val))
    if e.k == 'DeclRefExpr' and e.ref not in mods:
        v = st.env.get((E.curframe, e.ref))
        if isinstance(v, T) and v.sort == 'I': return v
    if e.k == 'UnaryOperator' and e.op == '-':
        v = const_expr(E, st, e.ch[0], mods)
        return neg(v) if v is not None else None
    if e.k == 'BinaryOperator' and e.op in ('+', '-', '*'):
        a = const_expr(E, st, e.ch[0], mods); b = const_expr(E, st, e.ch[1], mods)
        if a is None or b is None: return None
        return {'+': add, '-': sub, '*': mul}[e.op](a, b)
    return None

class Rerun(Exception): pass

def do_loop(E, st, cond, inc, body, node, fl):
    E.stats['loops'] += 1
    mods, seeds, flags = scan(E, st, cond, inc, body)
    spec = E.loop_spec(node)
    Wv = {(E.curframe, r) for r in mods if (E.curframe, r) in st.env and not isinstance(st.env[(E.curframe, r)], Cell)}
    Wh = set(seeds)
    counters = syntactic_counters(E, st, mods, flags)
    counters = {k: s for k, s in counters.items() if k in Wv}
    if st.env and any(st.env.get(k) is None for k in Wv):
        Wv = {k for k in Wv if st.env.get(k) is not None}
    # loops with a small constant trip count are unrolled exactly
    nt = quick_trip(E, st, cond, counters, Wv)
    if nt is not None and isconst(nt) and cval(nt) <= E.UNROLL and not spec:
        return unroll(E, st, cond, inc, body, cval(nt), fl)
    for attempt in range(8):
        o0 = len(E.obls); s0 = len(E.skolems)
        try:
            return iterate(E, st, cond, inc, body, node, fl, Wv, Wh, counters, spec)
        except Rerun:
            del E.obls[o0:]; del E.skolems[s0:]
    raise Unsupported('loop at line %s does not stabilise' % node.line)

def quick_trip(E, st, cond, counters, Wv):
    if cond is None or not counters: return None
    g = st.copy(); k = fresh('k')
    for key in Wv:
        if key not in counters:
            v = g.env[key]
            g.env[key] = fresh('w', sort_of(E.vty.get(key, 'double'))) if isinstance(v, T) else PUnk('loop')
    for key, s in counters.items():
        v = st.env[key]
        if not isinstance(v, T): return None
        g.env[key] = add(v, mul(s, k))
    E.quiet += 1
    try: c = E.tobool(E.expr(g, cond))
    except Unsupported: return None
    finally: E.quiet -= 1
    for key in Wv:
        if key not in counters and isinstance(g.env[key], T) and g.env[key] in c.fv: return None
    if c is FALSE: return ZERO
    n = trip(E, st, c, k, E.D(st), clamp=True)
    return n

def unroll(E, st, cond, inc, body, n, fl):
    brk = []
    for i in range(n):
        if st is None: break
        c = E.tobool(E.expr(st, cond))
        f2 = {'break': brk, 'cont': [], 'ret': fl['ret'], 'goto': fl['goto']}
        E.branch(st, c) if E.dec.known(c) is not True else None
        st = E.stmt(st, body, f2)
        st = E.merge_all([s for s in [st] + f2['cont'] if s is not None])
        if st is not None and inc is not None: E.expr(st, inc)
    if st is not None: E.expr(st, cond)
    return E.merge_all([s for s in [st] + brk if s is not None])

def trip(E, st, c, k, dec, clamp):
    """number of k>=0 for which c(k) holds consecutively from 0, when it can be solved; else None"""
    if c is FALSE: return ZERO
    if c is TRUE: return None
    if c.op == 'and':
        ns = [trip(E, st, x, k, dec, clamp) for x in c.args if k in x.fv]
        rest = [x for x in c.args if k not in x.fv]
        if not ns or any(x is None for x in ns): return None
        n = ns[0]
        for m in ns[1:]:
            n = m if dec(le(m, n)) else n if dec(le(n, m)) else imin(n, m)
        for x in rest:
            kn = dec.known(x)
            if kn is True: continue
            n = ite(x, n, ZERO)
        return n
    if k not in c.fv:
        return None
    if c.op == 'le0':
        l = linpoly(c.args[0], k)
        if l is None: return None
        a, r = l
        if isconst(a) and cval(a) > 0:
            e = sub(ONE, r) if a is ONE else None
            if e is None:
                # floor(-r/a)+1
                if isconst(r): e = num((-cval(r)) // cval(a) + 1)
                else:
                    if dec(le(r, ZERO)): e = add(tdiv(neg(r), a), ONE)
                    else: e = ite(le(r, ZERO), add(tdiv(neg(r), a), ONE), ZERO)
            return clampn(e, dec) if clamp else (e if not dec(le(e, ZERO)) else ZERO)
        if a.sort == 'I' and r.sort == 'I' and dec(lt(ZERO, a)):
            dm = divmod_poly(r, a)
            e = None
            if dm is not None:
                q, rem = dm
                if dec(and_(le(rem, ZERO), le(sub(ONE, a), rem))): e = sub(ONE, q)
                elif dec(and_(le(ONE, rem), le(rem, a))): e = neg(q)
            if e is None and dec(le(r, ZERO)): e = add(tdiv(neg(r), a), ONE)
            if e is not None: return clampn(e, dec) if clamp else (e if not dec(le(e, ZERO)) else ZERO)
        return None
    if c.op == 'not' and c.args[0].op == 'eq0':
        l = lin(c.args[0].args[0], k)
        if l is None: return None
        a, r = l
        if a in (1, -1):
            e = neg(r) if a == 1 else r
            if dec(le(ZERO, e)): return e
        return None
    return None

def iterate(E, st, cond, inc, body, node, fl, Wv, Wh, counters, spec):
    k = fresh('k')
    g = st.copy()
    syms = {}      # sym var -> key   (scalar)
    bases = {}     # BaseArr -> heap key
    psyms = {}
    hsyms = {}
    for key in sorted(Wv, key=str):
        v0 = st.env[key]
        if key in counters:
            g.env[key] = add(v0, mul(counters[key], k)) if isinstance(v0, T) else Ptr(v0.rid, add(v0.off, mul(counters[key], k)), v0.fld)
        elif isinstance(v0, T):
            s = fresh('v', sort_of(E.vty.get(key, 'double'))); syms[s] = key; g.env[key] = s
        elif isinstance(v0, Ptr):
            s = fresh('p', 'I'); psyms[s] = key; g.env[key] = Ptr(v0.rid, s, v0.fld)
        elif isinstance(v0, StructV): raise Unsupported('struct value in loop')
        else: g.env[key] = PUnk('loop variable')
    for key in sorted(Wh, key=str):
        v0 = st.heap[key]
        if isinstance(v0, Arr):
            b = BaseArr('%s@%s' % (E.regions[key[0]].name + ('.' + key[1] if key[1] else ''), k.args[0]), content_sort(E, key))
            bases[b] = key; g.heap[key] = ABase(b)
        elif isinstance(v0, T) and key[1] != 'alive':
            s = fresh('h', field_sort(E, key)); hsyms[s] = key; g.heap[key] = s
        elif isinstance(v0, T): 
            s = fresh('al', 'B'); hsyms[s] = key; g.heap[key] = s
        elif isptr(v0): g.heap[key] = PUnk('loop field')
        else: raise Unsupported('loop modifies pointer array')
    g.pc.append(('a', le(ZERO, k)))
    nb0 = len(g.pc)
    s0 = len(E.skolems)
    invs = []
    # 'opaque a b': nothing is inferred about these arrays in this loop, only the stated invariants are known
    opaque = set(); havoced = []
    for txt in [x for x in (spec or []) if x.startswith('opaque ')]: havoced += txt.split()[1:]
    spec = [x for x in (spec or []) if not x.startswith('opaque ')]
    if havoced:
        fr = E.names.get(E.curframe, {})
        al = getattr(E.curfunobj, 'alias', {})
        for nm in havoced:
            key = fr.get(nm) or fr.get(al.get(nm, nm))
            v = st.env.get(key)
            if isinstance(v, Ptr): opaque |= {b for b, hk in bases.items() if hk[0] == v.rid}
            else: opaque |= {s_ for s_, ky in syms.items() if ky == key}
    if spec:
        for txt in spec:
            c = E.eval_inv(txt, g, st); invs.append((txt, c)); E.assume(g, c)
    nb1 = len(g.pc)
    head = g.copy()
    o0 = len(E.obls)
    c = E.tobool(E.expr(g, cond)) if cond is not None else TRUE
    t = g.copy(); nbc = len(t.pc)
    E.branch(t, c)
    f2 = {'break': [], 'cont': [], 'ret': [], 'goto': []}
    t = E.stmt(t, body, f2)
    t = E.merge_all([s for s in [t] + f2['cont'] if s is not None])
    if t is not None and inc is not None: E.expr(t, inc)
    # ---- did the iteration touch anything outside W?
    outs = [s for s in [t, g] + f2['break'] + [x for x, v in f2['ret']] + [x for _, x in f2['goto']] if s is not None]
    again = False
    for s in outs:
        for key, v in s.env.items():
            if key in st.env and key not in Wv and v is not st.env[key] and not (isptr(v) and isptr(st.env[key]) and v.same(st.env[key])) \
                    and not (isinstance(v, Cell)):
                Wv.add(key); again = True
        for key, v in s.heap.items():
            if key in st.heap and key not in Wh and v is not st.heap[key] and not (isptr(v) and v.same(st.heap[key])):
                Wh.add(key); again = True
    for key in list(counters):
        for s in ([t] if t is not None else []):
            want = add(st.env[key], mul(counters[key], add(k, ONE))) if isinstance(st.env[key], T) else add(st.env[key].off, mul(counters[key], add(k, ONE)))
            got = s.env[key] if isinstance(st.env[key], T) else s.env[key].off if isinstance(s.env[key], Ptr) and s.env[key].rid == st.env[key].rid else None
            if got is not want:
                del counters[key]; again = True; break
    if t is not None and not again:
        for s, key in list(syms.items()) + list(psyms.items()):
            if key in counters: continue
            nv = t.env[key]
            if isinstance(nv, Ptr): nv = nv.off if nv.rid == st.env[key].rid else None
            if not isinstance(nv, T): continue
            if nv.sort == 'I':
                d = sub(nv, s)
                if not (d.fv & (set(syms) | set(psyms) | set(hsyms) | {k})) and not any(isinstance(x, BaseArr) and x in bases for x in d.fv) \
                        and not any(x in d.fv for x in E.skolems[s0:]):
                    counters[key] = d; again = True
    if again: raise Rerun()
    E.stats['loop_rules'] += 1
    # ---- heap objects allocated inside the body must be released inside it
    if t is not None:
        for key in [x for x in t.heap if x not in st.heap]:
            if key[1] == 'alive':
                r = E.regions[key[0]]
                if r.origin == 'malloc':
                    E.oblige(t, 'leak', not_(t.heap[key]), r.line, 'memory allocated in the loop body is freed in the same iteration')
    # ---- lift iteration-local unknowns
    dec = E.D(t if t is not None else g)
    sk = E.skolems[s0:]
    lifted_v = {}; lifted_a = {}
    for x in sk:
        if isinstance(x, BaseArr):
            b2 = BaseArr(x.name + '^', x.sort, x.ar + 1)
            lifted_a[x] = Lift(b2, k)
        else:
            b2 = BaseArr(x.args[0] + '^', x.sort, 1)
            lifted_v[x] = read(b2, k)
    del E.skolems[s0:]
    for x in sk:
        E.skolems.append(lifted_a[x].base if isinstance(x, BaseArr) else lifted_v[x].args[0])
    arrL = {}
    for x, f in lifted_a.items():
        if x.ar == 1:
            xx = fresh('x'); arrL[x] = AFun(xx, read(f.base, k, xx))
    def lift(v):
        if isinstance(v, T):
            return tm.subst(v, lifted_v, lifted_a) if not v.fv.isdisjoint(sk) else v
        if isinstance(v, Arr):
            return asubst(v, lifted_v, arrL, ar.NODEC)
        if isinstance(v, Ptr): return Ptr(v.rid, lift(v.off), v.fld)
        return v
    # ---- resolve
    clos = {}      # sym -> closed form in k (T) ; base -> Arr in k
    facts = []     # (needs n) functions n -> fact
    pend = {}
    wantsclamp = set()
    if t is not None:
        for s, key in syms.items(): pend[s] = (st.env[key], lift(t.env[key]))
        for s, key in psyms.items():
            nv = t.env[key]
            if not (isinstance(nv, Ptr) and nv.rid == st.env[key].rid): raise Unsupported('loop pointer changes object')
            pend[s] = (st.env[key].off, lift(nv.off))
        for s, key in hsyms.items(): pend[s] = (st.heap[key], lift(t.heap[key]))
        for b, key in bases.items(): pend[b] = (st.heap[key], lift(t.heap[key]))
    else:
        for s, key in list(syms.items()): pend[s] = (st.env[key], None)
        for s, key in psyms.items(): pend[s] = (st.env[key].off, None)
        for s, key in hsyms.items(): pend[s] = (st.heap[key], None)
        for b, key in bases.items(): pend[b] = (st.heap[key], None)
    nfact = fresh('n')       # placeholder for the trip count inside facts
    R = Resolver(E, dec, k, nfact)
    prevc = tm.subst(c, {k: sub(k, ONE)})
    R.ctx_end = st.conds() + [le(ZERO, k)]
    if not (c.fv & (set(syms) | set(psyms) | set(hsyms) | set(bases) | set(sk))):
        R.ctx_end.append(or_(le(k, ZERO), prevc))
    skipclose = set()
    R.solve(pend, allsyms=set(pend), clos=clos, facts=facts, user=bool(spec), opaque=opaque)
    # closed forms contain k
    def at(i, raw=None):
        m = {}; a = {}
        for s, (f, kind) in clos.items():
            j = raw if (raw is not None and kind == 'raw') else i
            if isinstance(s, BaseArr): a[s] = asubst(f, {k: j}, {}, ar.NODEC) if isinstance(f, Arr) else f
            else: m[s] = tm.subst(f, {k: j})
        return m, a
    mk_, ak_ = at(k)
    # obligations raised inside the body: replace the symbols by their closed forms
    for o in E.obls[o0:]:
        if o.done: continue
        E.dec.sync(st.conds() + [le(ZERO, k)])
        o.pc = tuple(substT(x, mk_, ak_, E.dec) for x in o.pc)
        o.goal = substT(o.goal, mk_, ak_, E.dec)
    cc = substT(c, mk_, ak_, dec)
    # ---- trip count
    exits = bool(f2['break'] or f2['ret'] or f2['goto'])
    E.dec.sync(st.conds())
    nex = trip(E, st, cc, k, E.dec, False) if not (cc.fv & set(x for x in clos)) else None
    ncl = trip(E, st, cc, k, E.dec, True) if nex is not None else None
    closedcond = nex is not None
    post = []
    if t is None and not exits:
        pass
    inner_exit = exits
    if closedcond and not inner_exit:
        n = ncl; raw = nex
        nfacts = []
    else:
        n = fresh('n'); E.skolems.append(n); raw = None
        nfacts = [le(ZERO, n)]
        if closedcond: nfacts.append(le(n, ncl))
    iterfacts = []
    if t is not None:
        trivial = set(tm_flat(c)) if (closedcond) else set()
        for kind, x in t.pc[nb1:]:
            for y in tm_flat(x):
                if y in trivial: continue
                y2 = substT(lift(y), mk_, ak_, dec)
                if y2 is TRUE: continue
                if y2.fv & set(clos): continue
                iterfacts.append(y2)
    def with_n(nn):
        out = []
        for y in iterfacts:
            q = fresh('j')
            out.append(forall((q,), implies(and_(le(ZERO, q), lt(q, nn)), tm.subst(y, {k: q}))) if k in y.fv else guard(lt(ZERO, nn), y))
        for f in facts: out.append(tm.subst(f, {nfact: nn}))
        return out
    # user invariants: initially, preserved
    if spec:
        for txt in spec:
            c0 = E.eval_inv(txt, st, st)
            E.oblige(st, 'inv-init', c0, node.line, 'loop invariant holds on entry: ' + txt)
        if t is not None:
            t2 = t
            pcx = [('a', substT(x, mk_, ak_, dec)) for kd, x in t.pc]
            for txt in spec:
                cn = E.eval_inv(txt, t, st)
                cn = substT(cn, mk_, ak_, dec)
                s3 = State(); s3.pc = pcx
                E.oblige(s3, 'inv-step', cn, node.line, 'loop invariant is preserved: ' + txt)
    # ---- states after the loop
    mn, an = at(n, raw)
    def shift(s, extra):
        """state s (expressed at generic iteration k) -> state at iteration n"""
        r = State()
        m = dict(mn); m[k] = n
        r.pc = list(st.pc)
        for f in nfacts: E.assume(r, f)
        for f in with_n(n):
            E.assume(r, f)
        E.dec.sync(r.conds())
        d = E.dec
        def V(v):
            if isinstance(v, T): return substT(v, m, an, d)
            if isinstance(v, Arr): return asubst(v, m, an, d)
            if isinstance(v, Ptr): return Ptr(v.rid, V(v.off), v.fld)
            if isinstance(v, PIte): return PIte(V(v.c), V(v.a), V(v.b))
            if isinstance(v, dict): return {V(kk): V(x) for kk, x in v.items()}
            if isinstance(v, StructV): return StructV({f: V(x) for f, x in v.fields.items()})
            return v
        for kd, x in s.pc[nb0:]:
            y = V(x)
            if y is not TRUE: r.pc.append((kd, y))
        for f in extra:
            y = V(f)
            if y is not TRUE: E.branch(r, y)
        E.dec.sync(r.conds())
        r.env = {key: V(v) for key, v in s.env.items()}
        r.heap = {key: V(v) for key, v in s.heap.items()}
        return r
    outs = []
    # normal exit: condition false at n
    if c is not TRUE:
        ex = not_(c)
        if closedcond and not inner_exit:
            s = shift(g, [])
            # exit condition is implied by n's definition
        else:
            s = shift(g, [ex])
        if E.feasible(s): outs.append(s)
    for b in f2['break']:
        s = shift(b, [])
        if E.feasible(s): outs.append(s)
    for b, v in f2['ret']:
        s = shift(b, [])
        if E.feasible(s):
            m = dict(mn); m[k] = n
            v2 = substT(v, m, an, E.dec) if isinstance(v, T) else Ptr(v.rid, substT(v.off, m, an, E.dec), v.fld) if isinstance(v, Ptr) else v
            fl['ret'].append((s, v2))
    for l, b in f2['goto']:
        s = shift(b, [])
        if E.feasible(s): fl['goto'].append((l, s))
    if not closedcond: E.assumptions.add('termination of the loop at %s:%s is not proved' % (E.curfun, node.line))
    res = E.merge_all(outs)
    E.loopinfo.append((E.curfun, node.line, str(n)[:80], [(E.regions[bases[x]] .name if False else str(x)[:30], kind) for x, (f, kind) in clos.items()]))
    return res

class Lift:
    def __init__(s, base, k): s.base = base; s.k = k
    def __call__(s, *idx): return read(s.base, s.k, *idx)

def content_sort(E, key):
    r = E.regions[key[0]]
    t = r.elty if key[1] is None else r.struct.get(key[1])
    if t is None: 
        return 'R'
    m = ARRTY.match(t) if not t.endswith('*') else None
    if m: t = (m.group(1) + m.group(3)).strip()
    return sort_of(t)
def field_sort(E, key):
    r = E.regions[key[0]]
    t = r.struct.get(key[1]) if r.struct else r.elty
    if t is None or t.startswith('char'): return 'I'
    return sort_of(t)

def substT(v, m, a, dec):
    if not isinstance(v, T): return v
    if not m and not a: return v
    arrf = {x: (lambda A: (lambda *idx: aread(A, idx[0], dec)))(A) for x, A in a.items()}
    return tm.subst(v, m, arrf, None)

# ------------------------------------------------------------------------------------------------
class Resolver:
    def __init__(self, E, dec, k, nfact):
        self.E = E; self.dec = dec; self.k = k; self.n = nfact
        self.ctx_end = None
        self.dec2 = E.dec2

    def solve(self, pend, allsyms, clos, facts, user, opaque=()):
        E, dec, k = self.E, self.dec, self.k
        self.clos = clos
        base_stack = list(dec.stack)
        todo = {x: v for x, v in pend.items() if x not in opaque}
        progress = True
        for x in opaque:
            if isinstance(x, BaseArr):
                F = E.newbase(x.name + '~', x.sort, 2); xx = fresh('x')
                clos[x] = (AFun(xx, read(F, k, xx)), 'cl')
            else: clos[x] = (read(E.newbase(x.args[0] + '~', x.sort, 1), k), 'cl')
        while todo and progress:
            progress = False
            for x in sorted(todo, key=lambda z: (isinstance(z, BaseArr), z.id)):
                v0, nv = todo[x]
                if nv is None: continue
                nv2 = self.sub(nv)
                fv = nv2.fv if isinstance(nv2, T) else afv(nv2)
                dep = {y for y in todo if y in fv}
                if dep - {x}: continue
                if isinstance(x, BaseArr):
                    r = self.close_array(x, v0, nv2, facts)
                else:
                    r = self.close_scalar(x, v0, nv2, facts, trace=not user)
                if r is None: continue
                clos[x] = r; del todo[x]; progress = True
            if not progress:
                # break cycles: a scalar recurrence that depends on other unresolved scalars/arrays gets a trace
                pass
        # fallback: uninterpreted traces
        tr = {}
        for x, (v0, nv) in todo.items():
            if isinstance(x, BaseArr):
                F = E.newbase(x.name + '~', x.sort, 2)
                xx = fresh('x')
                clos[x] = (AFun(xx, read(F, k, xx)), 'cl')
                tr[x] = (F, v0, nv)
            else:
                V = E.newbase(x.args[0] + '~', x.sort, 1)
                clos[x] = (read(V, k), 'cl'); tr[x] = (V, v0, nv)
        for x, (V, v0, nv) in tr.items():
            if isinstance(x, BaseArr):
                q = fresh('x')
                facts.append(forall((q,), eq(read(V, ZERO, q), aread(v0, q, ar.NODEC))))
                # one fact of the step: cells of the next content
                if nv is not None:
                    nv2 = self.sub(nv)
                    if self.simple(nv2):
                        q2 = fresh('x')
                        facts.append(forall((k2 := fresh('j'), q2), implies(and_(le(ZERO, k2), lt(k2, self.n)),
                              eq(read(V, add(k2, ONE), q2), tm.subst(aread(nv2, q2, ar.NODEC), {k: k2})))))
            else:
                facts.append(eq(read(V, ZERO), v0) if v0.sort != 'B' else iff(read(V, ZERO), v0))
                if nv is not None:
                    k2 = fresh('j')
                    nv2 = self.sub(nv)
                    facts.append(forall((k2,), implies(and_(le(ZERO, k2), lt(k2, self.n)),
                          eq(read(V, add(k2, ONE)), tm.subst(nv2, {k: k2})))))
    def simple(self, A):
        c, r = chain(A)
        return len(c) <= 3 and isinstance(r, (ABase, AFun))

    def sub(self, v):
        m = {}; a = {}
        for s, (f, kind) in self.clos.items():
            if isinstance(s, BaseArr): a[s] = f
            else: m[s] = f
        if isinstance(v, Arr): return asubst(v, m, a, self.dec)
        arrf = {x: (lambda A: (lambda *idx: aread(A, idx[0], self.dec)))(A) for x, A in a.items()}
        return tm.subst(v, m, arrf, self.dec)

    # ---- scalars: value at the start of iteration k as a function of k
    def close_scalar(self, x, v0, nv, facts, trace=True):
        k = self.k
        if x.sort == 'B': return None
        if x not in nv.fv:
            if k not in nv.fv and nv is v0: return (v0, 'raw')
            prev = tm.subst(nv, {k: sub(k, ONE)})
            return (ite(le(ONE, k), prev, v0), 'raw')
        if nv is x: return (v0, 'raw')
        r = self.recur(x, v0, nv)
        if r is not None: return (r, 'cl')
        # running extremum: x' = max(x, e(k)) / min(x, e(k))
        r = self.extremum(x, v0, nv, facts)
        if r is not None: return (r, 'cl')
        if not trace: pass
        V = self.E.newbase(x.args[0] + '~', x.sort, 1)
        facts.append(eq(read(V, ZERO), v0))
        k2 = fresh('j')
        facts.append(forall((k2,), implies(and_(le(ZERO, k2), lt(k2, self.n)),
              eq(read(V, add(k2, ONE)), tm.subst(nv, {x: read(V, k2), k: k2})))))
        return (read(V, k), 'cl')
    def recur(self, x, v0, nv):
        """x' = x + d(k)"""
        k = self.k
        d = sub(nv, x)
        if x not in d.fv:
            d0 = {}; d1 = {}
            for m, cc in pd(d).items():
                (d1 if any(k in a.fv for a, e in m) else d0)[m] = cc
            d0 = from_pd(d0); d1 = from_pd(d1)
            j = fresh('j')
            self.dec2.sync(self.ctx_end)
            s = Sum(j, k, tm.subst(d1, {k: j}), self.dec2)
            return add(v0, mul(k, d0), s)
        return None
    def extremum(self, x, v0, nv, facts):
        k = self.k
        if nv.op != 'ite': return None
        c, a, b = nv.args
        # forms: ite(p<=0, x, e) or ite(p<=0, e, x)
        if a is x and x not in b.fv: e = b; keep = c
        elif b is x and x not in a.fv: e = a; keep = not_(c)
        else: return None
        if keep in (le(e, x), lt(e, x)): mx = True
        elif keep in (le(x, e), lt(x, e)): mx = False
        else: return None
        V = self.E.newbase(('max~' if mx else 'min~'), x.sort, 1)
        i = fresh('i'); m = fresh('m')
        ei = tm.subst(e, {k: i})
        cmp_ = (lambda p, q: le(p, q)) if mx else (lambda p, q: le(q, p))
        facts.append(eq(read(V, ZERO), v0))
        facts.append(forall((m,), implies(and_(le(ZERO, m), le(m, self.n)), cmp_(v0, read(V, m)))))
        facts.append(forall((m, i), implies(and_(le(ZERO, i), lt(i, m), le(m, self.n)), cmp_(ei, read(V, m)))))
        W = self.E.newbase('arg~', 'I', 1)
        w = read(W, m)
        facts.append(forall((m,), implies(and_(le(ZERO, m), le(m, self.n)),
                     or_(eq(read(V, m), v0), and_(le(ZERO, w), lt(w, m), eq(read(V, m), tm.subst(e, {k: w})))))))
        return read(V, k)

    # ---- arrays
    def past(self, w):
        """cells written by w in iterations < k: ('int',lo,hi) exact interval, ('hull',lo,hi), ('cell', i) or None"""
        k = self.k; dec = self.dec
        if isinstance(w, AStore):
            l = linpoly(w.i, k)
            if l is None: return None
            s, a = l
            if s is ZERO: return ('cell', a)
            if s is ONE: return ('int', a, add(a, k))
            if isconst(s) and cval(s) == -1: return ('int', add(sub(a, k), ONE), add(a, ONE))
            if dec(lt(ZERO, s)): return ('hull', a, add(a, mul(s, sub(k, ONE)), ONE))
            if dec(lt(s, ZERO)): return ('hull', add(a, mul(s, sub(k, ONE))), add(a, ONE))
            return None
        if isinstance(w, ALam):
            l = linpoly(w.lo, k)
            if l is None: return None
            s, a = l
            width = sub(w.hi, w.lo)
            if s is ZERO:
                if k in w.hi.fv:
                    return None
                return ('fix', w.lo, w.hi)
            with dec.assume(lt(w.lo, w.hi)):
                if dec(and_(lt(ZERO, s), le(width, s))):
                    if dec(eq(width, s)): return ('int', a, add(a, mul(s, k)))
                    return ('hull', a, add(a, mul(s, k)))
                if dec(and_(lt(s, ZERO), le(width, neg(s)))):
                    # moving down
                    return ('hull', add(a, mul(s, sub(k, ONE))), add(a, width)) if k not in width.fv else None
            return None
        if isinstance(w, ABox):
            return None
        return None

    def close_array(self, B, A0, nx, facts):
        E, dec, k = self.E, self.dec, self.k
        if isinstance(A0, AFun) and False: pass
        if isinstance(nx, ABase) and nx.arr is B: return (A0, 'raw')
        ws, root = chain(nx)
        if B not in afv(nx):
            # content is replaced as a whole in every iteration
            prev = asubst(nx, {k: sub(k, ONE)}, {}, ar.NODEC)
            return (AIte(le(ONE, k), prev, A0), 'raw')
        if not (isinstance(root, ABase) and root.arr is B): return None
        if len(ws) == 1 and isinstance(ws[0], ABox): return self.close_box(B, A0, ws[0], facts)
        # all writes to loop-invariant single cells: pseudo scalars
        if all(isinstance(w, AStore) and k not in w.i.fv and B not in w.i.fv for w in ws):
            return self.close_cells(B, A0, nx, ws, facts)
        if len(ws) == 1 and isinstance(ws[0], ALam):
            w = ws[0]
            if B in w.lo.fv or B in w.hi.fv: return None
            if k not in w.lo.fv and k not in w.hi.fv:
                return self.close_fixed_block(B, A0, w, facts)
        if any(isinstance(w, ABox) for w in ws): return None
        pasts = [self.past(w) for w in ws]
        if any(p is None for p in pasts):
            if len(ws) == 1 and isinstance(ws[0], ALam): return self.close_percell(B, A0, ws[0], facts)
            return None
        for w in ws:
            idx = [w.i] if isinstance(w, AStore) else [w.lo, w.hi]
            if any(B in i.fv for i in idx): return None
        # older writes of a later iteration must not overwrite newer writes of an earlier one
        if len(ws) > 1:
            j = fresh('j')
            for a in range(len(ws)):            # ws[a] newer than ws[b] for a<b
                for b in range(a + 1, len(ws)):
                    if not self.disjoint_at(ws[a], j, ws[b]): return None
        newbase = None
        used = [False]
        def Aprime():
            nonlocal newbase
            if newbase is None: newbase = E.newbase(B.name + "'", B.sort, 1)
            return newbase
        def rdself(r):
            unwritten = []
            for w, p in zip(ws, pasts):
                lo, hi = (p[1], p[2]) if p[0] in ('int', 'hull') else (p[1], add(p[1], ONE)) if p[0] == 'cell' else (None, None)
                if p[0] == 'fix':
                    lo, hi = p[1], p[2]
                if dec(or_(lt(r, lo), le(hi, r))): continue
                if p[0] == 'hull' and isinstance(w, AStore):
                    # strided: own cell of this iteration is not yet written
                    if dec(eq(r, w.i)): continue
                if p[0] == 'int':
                    if dec(and_(le(lo, r), lt(r, hi))): return read(Aprime(), r)
                    unwritten.append((lo, hi)); continue
                raise Fail()
            if not unwritten: return aread(A0, r, dec)
            g = or_(*[and_(le(lo, r), lt(r, hi)) for lo, hi in unwritten])
            return ite(g, read(Aprime(), r), mkA0(r, g))
        def mkA0(r, g):
            with dec.assume(not_(g)): return aread(A0, r, dec)
        class Fail(Exception): pass
        res = A0
        K = k
        try:
            newv = []
            for w in ws:
                if isinstance(w, AStore):
                    newv.append(tm.subst(w.v, {}, {B: rdself}, dec) if B in w.v.fv else w.v)
                else:
                    with dec.assume(le(w.lo, w.x), lt(w.x, w.hi)):
                        newv.append(tm.subst(w.body, {}, {B: rdself}, dec) if B in w.body.fv else w.body)
        except Fail:
            if len(ws) == 1 and isinstance(ws[0], ALam): return self.close_percell(B, A0, ws[0], facts)
            return None
        for w, p, v in reversed(list(zip(ws, pasts, newv))):
            x = fresh('x')
            if isinstance(w, AStore):
                s, a = linpoly(w.i, k)
                if s is ZERO:
                    res = AStore(res, a, ite(le(ONE, k), tm.subst(v, {k: sub(k, ONE)}), aread(res, a, ar.NODEC)))
                    if newbase is not None: return None
                    continue
                if newbase is not None:
                    if p[0] != 'int': return None
                    j = fresh('j')
                    facts.append(forall((j,), implies(and_(le(ZERO, j), lt(j, self.n)),
                                 eq(read(newbase, tm.subst(w.i, {k: j})), tm.subst(v, {k: j})))))
                    res = ALam(res, p[1], p[2], x, read(newbase, x)); continue
                if s is ONE: res = ALam(res, p[1], p[2], x, tm.subst(v, {k: sub(x, a)}))
                elif isconst(s) and cval(s) == -1: res = ALam(res, p[1], p[2], x, tm.subst(v, {k: sub(a, x)}))
                elif dec(lt(ZERO, s)):
                    r = fresh('r'); c = fresh('c')
                    res = ABox(res, a, s, r, ZERO, k, c, ZERO, ONE, tm.subst(v, {k: r}))
                else:
                    r = fresh('r'); c = fresh('c')
                    res = ABox(res, add(a, mul(s, sub(k, ONE))), neg(s), r, ZERO, k, c, ZERO, ONE,
                               tm.subst(v, {k: sub(sub(k, ONE), r)}))
            else:
                s, a = linpoly(w.lo, k)
                if s is ZERO: return None
                width = sub(w.hi, w.lo)
                if newbase is not None:
                    if p[0] != 'int': return None
                    j = fresh('j'); y = fresh('y')
                    facts.append(forall((j, y), implies(and_(le(ZERO, j), lt(j, self.n), le(tm.subst(w.lo, {k: j}), y), lt(y, tm.subst(w.hi, {k: j}))),
                                 eq(read(newbase, y), tm.subst(v, {k: j, w.x: y})))))
                    res = ALam(res, p[1], p[2], x, read(newbase, x)); continue
                if not dec(lt(ZERO, s)):
                    with dec.assume(lt(w.lo, w.hi)):
                        if not dec(lt(ZERO, s)): return None
                r = fresh('r'); c = fresh('c')
                res = ABox(res, a, s, r, ZERO, k, c, ZERO, tm.subst(width, {k: r}),
                           tm.subst(v, {k: r, w.x: add(a, mul(r, s), c)}))
        return (res, 'raw')

    def disjoint_at(self, wa, j, wb):
        """cells of wa at iteration j and wb at iteration k are different whenever 0<=j<k"""
        dec = self.dec; k = self.k
        def rng(w, i):
            if isinstance(w, AStore):
                t = tm.subst(w.i, {k: i}); return t, add(t, ONE)
            return tm.subst(w.lo, {k: i}), tm.subst(w.hi, {k: i})
        la, ha = rng(wa, j); lb, hb = rng(wb, k)
        with dec.assume(le(ZERO, j), lt(j, k)):
            if isinstance(wa, AStore) and isinstance(wb, AStore): return dec(ne(la, lb))
            return dec(or_(le(ha, lb), le(hb, la)))

    def close_cells(self, B, A0, nx, ws, facts):
        dec, k = self.dec, self.k
        cells = []
        for w in ws:
            if not any(same_idx(w.i, i, dec) for i in cells):
                for i in cells:
                    if not dec(ne(w.i, i)): return None
                cells.append(w.i)
        zs = [fresh('z', B.sort) for _ in cells]
        class Fail(Exception): pass
        def rds(r):
            for i, z in zip(cells, zs):
                kn = dec.known(eq(i, r))
                if kn is True: return z
                if kn is None: raise Fail()
            return aread(A0, r, dec)
        try: nv = [tm.subst(aread(nx, i, dec), {}, {B: rds}, dec) for i in cells]
        except Fail: return None
        pend = {z: (aread(A0, i, dec), v) for z, i, v in zip(zs, cells, nv)}
        clos = {}
        saved = self.clos
        todo = dict(pend); prog = True
        kind = 'raw'
        while todo and prog:
            prog = False
            for z in list(todo):
                v0, v = todo[z]
                v = tm.subst(v, {y: f for y, (f, _) in clos.items()})
                if any(y in v.fv for y in todo if y is not z): continue
                r = self.close_scalar(z, v0, v, facts)
                if r is None: continue
                if r[1] == 'cl': kind = 'cl'
                clos[z] = r; del todo[z]; prog = True
        if todo: return None
        res = A0
        for i, z in zip(cells, zs): res = AStore(res, i, clos[z][0])
        return (res, kind)

    def percell(self, B, A0, x, cell, body, facts, lo_hi_guard=None):
        """closed form of the value of one cell (index term `cell`) updated by body in each iteration; reads of B elsewhere fail"""
        dec, k = self.dec, self.k
        z = fresh('z', B.sort)
        class Fail(Exception): pass
        def rds(r):
            if r is cell or dec(eq(r, cell)): return z
            if lo_hi_guard is not None and dec(lo_hi_guard(r)): return aread(A0, r, dec)
            raise Fail()
        try: v = tm.subst(body, {}, {B: rds}, dec)
        except Fail: return None
        v0 = aread(A0, cell, dec)
        if z not in v.fv:
            if k not in v.fv: return ite(le(ONE, k), v, v0)
            return ite(le(ONE, k), tm.subst(v, {k: sub(k, ONE)}), v0)
        d = sub(v, z)
        if z in d.fv: return None
        if k not in d.fv: return add(v0, mul(clampn(k, dec), d))
        j = fresh('j')
        self.dec2.sync(self.ctx_end)
        return add(v0, Sum(j, k, tm.subst(d, {k: j}), self.dec2))

    def close_fixed_block(self, B, A0, w, facts):
        dec, k = self.dec, self.k
        with dec.assume(le(w.lo, w.x), lt(w.x, w.hi)):
            v = self.percell(B, A0, w.x, w.x, w.body, facts, lambda r: or_(lt(r, w.lo), le(w.hi, r)))
        if v is None: return None
        return (ALam(A0, w.lo, w.hi, w.x, v), 'raw')

    def close_percell(self, B, A0, w, facts):
        """block with moving bounds, each cell accumulates"""
        dec, k = self.dec, self.k
        if B in w.lo.fv or B in w.hi.fv: return None
        x = w.x
        g = and_(le(w.lo, x), lt(x, w.hi))
        z = fresh('z', B.sort)
        class Fail(Exception): pass
        def rds(r):
            if r is x or dec(eq(r, x)): return z
            raise Fail()
        try:
            with dec.assume(g): v = tm.subst(w.body, {}, {B: rds}, dec)
        except Fail: return None
        d = sub(v, z)
        if z in d.fv: return None
        j = fresh('j')
        v0 = aread(A0, x, ar.NODEC)
        s = Sum(j, k, tm.subst(ite(g, d, ZERO), {k: j}), None)
        return (AFun(x, add(v0, s)), 'raw')

    def close_box(self, B, A0, w, facts):
        dec, k = self.dec, self.k
        idx = add(w.off, mul(w.r, w.p), w.c)
        for t in (w.off, w.p, w.rlo, w.rhi, w.clo, w.chi):
            if B in t.fv: return None
        fixed = not any(k in t.fv for t in (w.off, w.p, w.rlo, w.rhi, w.clo, w.chi))
        rng = (le(w.rlo, w.r), lt(w.r, w.rhi), le(w.clo, w.c), lt(w.c, w.chi))
        if fixed:
            with dec.assume(*rng):
                v = self.percell(B, A0, None, idx, w.body, facts)
            if v is None: return None
            return (ABox(A0, w.off, w.p, w.r, w.rlo, w.rhi, w.c, w.clo, w.chi, v), 'raw')
        if k in w.p.fv: return None
        body = w.body
        if B in body.fv:
            class Fail(Exception): pass
            def rds(r):
                if r is idx or dec(eq(r, idx)): return aread(A0, r, dec)
                raise Fail()
            try:
                with dec.assume(*rng): body = tm.subst(body, {}, {B: rds}, dec)
            except Fail: return None
        r2 = fresh('r'); c2 = fresh('c')
        if k not in w.off.fv and k not in w.clo.fv and k not in w.chi.fv:
            l = lin(w.rlo, k)
            if l and l[0] == 1 and sub(w.rhi, w.rlo) is ONE:
                rho = l[1]
                m = {k: sub(r2, rho), w.r: r2, w.c: c2}
                return (ABox(A0, w.off, w.p, r2, rho, add(rho, k), c2, tm.subst(w.clo, m), tm.subst(w.chi, m), tm.subst(body, m)), 'raw')
            return None
        if k not in w.rlo.fv and k not in w.rhi.fv:
            # single column moving right: off + clo
            col = add(w.off, w.clo)
            if sub(w.chi, w.clo) is ONE and w.r not in w.clo.fv:
                l = lin(col, k)
                if l and l[0] == 1:
                    # columns gamma .. gamma+k of a matrix with offset off0
                    gam = l[1]
                    # split gamma into offset (0) and column; require 0<=k and column index < p
                    off0 = gam
                    if dec(lt(k, w.p)):
                        m = {k: c2, w.r: r2, w.c: sub(add(off0, c2), w.off)}
                        mm = {k: c2, w.r: r2}
                        cc = tm.subst(w.clo, {k: c2})
                        return (ABox(A0, off0, w.p, r2, w.rlo, w.rhi, c2, ZERO, k, tm.subst(body, {k: c2, w.r: r2, w.c: cc})), 'raw')
        return None
