"""Discharging an obligation: skolemisation, instantiation, sum and product lemmas, then z3 (cvc5 as a second opinion)."""
import z3, time, itertools
from term import *
import term as tm
import smt
from smt import *
from arrays import decompose, NODEC, divmod_poly
import dsl

import os
DBG = bool(os.environ.get('CDV_DBG'))
class Budget(Exception): pass

def split_goal(goal, hyps):
    """list of (extra hyps, atomic goal)"""
    if goal is TRUE: return []
    if goal.op == 'and':
        out = []
        for g in goal.args: out += split_goal(g, hyps)
        return out
    if goal.op == 'forall':
        vs, b = goal.args
        m = {v: fresh(v.args[0].split('!')[0] + 'sk', v.sort) for v in vs}
        return split_goal(tm._rawsubst(b, m), hyps)
    if goal.op == 'or':
        # implication: move negated non-target literals to the hypotheses
        lits = list(goal.args)
        tgt = [l for l in lits if l.op in ('and', 'forall')]
        if len(tgt) >= 1:
            t = tgt[0]
            hs = [not_(l) for l in lits if l is not t]
            return [(hs + h, g) for h, g in split_goal(t, hyps)]
        # keep one literal as goal: prefer eq0
        t = next((l for l in lits if l.op == 'eq0'), lits[-1])
        return [([not_(l) for l in lits if l is not t], t)]
    return [([], goal)]

def nnf_hyps(hs):
    """flatten; skolemise negated foralls"""
    ground = []; quant = []
    st = list(hs)
    while st:
        h = st.pop()
        if h is TRUE: continue
        if h.op == 'and': st.extend(h.args); continue
        if h.op == 'forall': quant.append(h); continue
        if h.op == 'not' and h.args[0].op == 'forall':
            vs, b = h.args[0].args
            m = {v: fresh('sk', v.sort) for v in vs}
            st.append(not_(tm._rawsubst(b, m))); continue
        if h.op == 'not' and h.args[0].op == 'or':
            st.extend(not_(a) for a in h.args[0].args); continue
        if h.op == 'or' and any(has_quant(a) for a in h.args):
            # skolemise negated foralls inside a disjunction; positive ones become quantified
            lits = []
            pos = None
            for a in h.args:
                if a.op == 'not' and a.args[0].op == 'forall':
                    vs, b = a.args[0].args
                    m = {v: fresh('sk', v.sort) for v in vs}
                    lits.append(not_(tm._rawsubst(b, m)))
                else: lits.append(a)
            h2 = or_(*lits)
            fs = [a for a in (h2.args if h2.op == 'or' else [h2]) if a.op == 'forall']
            if fs:
                f = fs[0]
                rest = [a for a in h2.args if a is not f]
                quant.append(mk('forall', (f.args[0], or_(*(rest + [f.args[1]]))), 'B', fv=h2.fv))
            else: ground.append(h2)
            continue
        ground.append(h)
    return ground, quant

def reads_of(ts):
    out = {}
    for u in subterms(ts):
        if u.op == 'read': out.setdefault(u.args[0], {})[u] = 1
        elif u.op == 'app' and len(u.args) > 1: out.setdefault(u.args[0], {})[u] = 1
    return out

def patterns(q):
    vs, b = q.args
    out = []
    for u in subterms([b], into_binders=False):
        if u.op == 'read' and any(v in u.fv for v in vs): out.append(u)
        elif u.op == 'app' and any(v in u.fv for v in vs): out.append(u)
    return out

def match(pat, g, vs):
    """solve pat == g for the variables vs (linear, syntactic): dict or None"""
    if pat.args[0] is not g.args[0] and pat.args[0] != g.args[0]: return None
    if len(pat.args) != len(g.args): return None
    m = {}
    for p, t in zip(pat.args[1:], g.args[1:]):
        p = tm._rawsubst(p, m) if m and any(v in p.fv for v in m) else p
        if m: p = tm.subst(p, m)
        inv_ = [v for v in vs if v in p.fv and v not in m]
        if not inv_:
            continue
        if len(inv_) == 1:
            v = inv_[0]
            l = linpoly(p, v)
            if l is None: return None
            c, r = l
            d = sub(t, r)
            if isconst(c) and cval(c) in (1, -1): m[v] = scale(d, cval(c))
            else:
                dm = divmod_poly(d, c)
                if dm is None: return None
                qd, rest = dm
                if rest is not ZERO: return None
                m[v] = qd
        elif len(inv_) == 2:
            # p = v1*c + v2 + r
            done = False
            for v1, v2 in (inv_, inv_[::-1]):
                l1 = linpoly(p, v1)
                if l1 is None: continue
                c1, r1 = l1
                l2 = linpoly(r1, v2)
                if l2 is None or not isconst(l2[0]) or cval(l2[0]) not in (1,): continue
                if v2 in c1.fv or isconst(c1): continue
                d = sub(t, l2[1])
                dm = divmod_poly(d, c1)
                if dm is None: continue
                m[v1], m[v2] = dm
                done = True; break
            if not done: return None
        else: return None
    return m

DL = [float('inf')]     # lemma generation stops here (fewer lemmas is always sound)
def instantiate(quant, ground, known, rounds=3, cap=400, extra=(), first=()):
    """E-matching of quantified hypotheses against ground reads; the terms in `first` are matched before all others"""
    out = []
    seen = set(known)
    if first:
        out, seen = instantiate(quant, first, seen, rounds=1, cap=cap)
    cur = list(ground)
    pats = [(q, patterns(q)) for q in quant]
    allreads = {}
    for a, d in reads_of(cur).items(): allreads.setdefault(a, {}).update(d)
    new = {a: dict(d) for a, d in allreads.items()}
    for rnd in range(rounds):
        fresh_ = []
        for q, ps in pats:
            vs, b = q.args
            if not ps:
                continue
            for p in ps:
                cand = new.get(p.args[0], {})
                if time.time() > DL[0]: return out, seen
                for g in list(cand):
                    m = match(p, g, vs)
                    if m is None: continue
                    rest = [v for v in vs if v not in m]
                    if rest:
                        if time.time() > DL[0]: return out, seen
                        # second pattern for the rest
                        for p2 in ps:
                            if not any(v in p2.fv for v in rest): continue
                            p2s = tm.subst(p2, m)
                            for g2 in list(allreads.get(p2.args[0], {})):
                                m2 = match(p2s, g2, rest)
                                if m2 and all(v in m2 for v in rest): fresh_.append((q, {**m, **m2}))
                        for v in rest:
                            pass
                        if len(rest) == 1:
                            for t in extra: fresh_.append((q, {**m, rest[0]: t}))
                        continue
                    fresh_.append((q, m))
        if rnd == 0:
            for q, ps in pats:
                vs, b = q.args
                if len(vs) == 1:
                    for t in extra: fresh_.append((q, {vs[0]: t}))
                elif len(vs) == 2 and (not ps or len(extra) <= 6):
                    for t in extra:
                        for t2 in extra: fresh_.append((q, {vs[0]: t, vs[1]: t2}))
        insts = []
        for q, m in fresh_:
            if any(v.sort == 'I' and m[v].sort != 'I' for v in m): continue
            key = (q, tuple(m[v] for v in q.args[0]))
            if key in seen: continue
            seen.add(key)
            i = tm.subst(q.args[1], m)
            if i is TRUE: continue
            insts.append(i); out.append(i)
            if len(out) >= cap: return out, seen
        if not insts: break
        r = reads_of(insts)
        new = {}
        for a, d in r.items():
            have = allreads.setdefault(a, {})
            nn = {u: 1 for u in d if u not in have}
            have.update(nn)
            if nn: new[a] = nn
    return out, seen

def sum_lemmas(ts, seen, unfold=True, maxn=40):
    out = []
    sums = [u for u in subterms(ts) if u.op == 'sum']
    sums.sort(key=lambda u: u.id)
    for s in sums[:maxn]:
        if s in seen: continue
        seen.add(s)
        x, n, b = open_sum(s)
        out.append(implies(le(n, ZERO), eq(s, ZERO)))
        if unfold:
            n1 = sub(n, ONE)
            last = tm.subst(b, {x: n1})
            out.append(implies(le(ONE, n), eq(s, add(tm.Sum(x, n1, b) if not isconst(n) else tm._close(x, n1, b), last))))
    return out

def first_lemmas(ts, seen):
    out = []
    for s in sorted([u for u in subterms(ts) if u.op == 'sum'], key=lambda u: u.id)[:30]:
        if ('f', s) in seen: continue
        seen.add(('f', s))
        x, n, b = open_sum(s)
        out.append(implies(le(ONE, n), eq(s, add(tm.subst(b, {x: ZERO}), tm.Sum(x, sub(n, ONE), tm.subst(b, {x: add(x, ONE)}))))))
    return out

def sum_sig(s):
    names = sorted({a.name + str(a.id) for a in s.fv if isinstance(a, BaseArr)})
    return tuple(names)

def pair_lemmas(ts, seen, maxp=80):
    """extensionality of sums: equal lengths and pointwise equal bodies"""
    out = []
    sums = sorted([u for u in subterms(ts) if u.op == 'sum'], key=lambda u: u.id)
    groups = {}
    for s in sums: groups.setdefault(s.ht, []).append(s)
    c = 0
    for h, l in groups.items():
        for a, b in itertools.combinations(l, 2):
            if (a, b) in seen: continue
            sa = {z.id for z in a.fv if isinstance(z, BaseArr)}; sb = {z.id for z in b.fv if isinstance(z, BaseArr)}
            if sa and sb and not (sa & sb): continue
            seen.add((a, b))
            c += 1
            if c > maxp: return out
            x = fresh('e')
            _, n1, f1 = open_sum(a, x); _, n2, f2 = open_sum(b, x)
            if n1 is not n2 and isconst(n1) and isconst(n2): continue
            same_n = or_(eq(n1, n2), and_(le(n1, ZERO), le(n2, ZERO)))
            out.append(implies(and_(same_n, implies(and_(le(ZERO, x), lt(x, n1)), eq(f1, f2))), eq(a, b)))
            # monotonicity of non-negative sums is not included
    return out

def adjacent_lemmas(ts, seen, maxp=60):
    """a sum over [0,a) followed by the same body shifted by a over [0,b) is the sum over [0,a+b); prefixes of one sum differ by such a rest"""
    out = []
    sums = sorted([u for u in subterms(ts) if u.op == 'sum'], key=lambda u: u.id)[:30]
    bodies = {}
    x = var('adj#', 'I')
    for s in sums: bodies[s] = open_sum(s, x)[1:]
    c = 0
    for a in sums:
        na, ba = bodies[a]
        if isconst(na): continue
        sh = None
        for b in sums:
            if a is b or ('adj', a, b) in seen: continue
            nb, bb = bodies[b]
            if bb.ht != ba.ht and bb.sort != ba.sort: continue
            if sh is None: sh = tm.subst(ba, {x: add(x, na)})
            if bb is sh:
                seen.add(('adj', a, b)); c += 1
                tot = add(na, nb)
                whole = tm.Sum(x, tot, ba)
                out.append(implies(and_(le(ZERO, na), le(ZERO, nb)), eq(whole, add(a, b))))
            if c > maxp: return out
    return out

def nonneg_sums(ts, seen):
    out = []
    for s in [u for u in subterms(ts) if u.op == 'sum']:
        if ('nn', s) in seen: continue
        seen.add(('nn', s))
        x, n, b = open_sum(s)
        w = fresh('w')
        bw = tm.subst(b, {x: w})
        # if every term is >=0 then the sum is >=0 (w: a witness of a negative term)
        out.append(implies(implies(and_(le(ZERO, w), lt(w, n)), le(ZERO, bw)), le(ZERO, s)))
    return out

class Result:
    def __init__(s, ok, backend='', model=None, why='', t=0.0):
        s.ok = ok; s.backend = backend; s.model = model; s.why = why; s.time = t

def has_real_products(ts):
    for u in subterms(ts):
        if u.op == 'poly':
            for m, c in u.args[0]:
                if sum(e for a, e in m) > 1: return True
    return False

def clear_inv(g, prove_nz):
    """goal eq0/le0/lt0 with denominators provably non-zero (positive): multiply out"""
    if g.op not in ('eq0', 'le0', 'lt0'): return g
    p = g.args[0]
    for _ in range(12):
        invs = {}
        for m, c in pd(p).items():
            for a, e in m:
                if a.op == 'inv': invs[a] = max(invs.get(a, 0), e)
        if not invs: break
        prog = False
        for u, deg in sorted(invs.items(), key=lambda z: -z[0].id):
            b = u.args[0]
            if g.op == 'eq0':
                if not prove_nz(ne(b, ZERO)): continue
                sgn = 1
            else:
                if prove_nz(lt(ZERO, b)): sgn = 1
                elif prove_nz(lt(b, ZERO)): sgn = -1
                else: continue
            r = ZERO
            for m, c in pd(p).items():
                k = 0; rest = []
                for a, e in m:
                    if a is u: k = e
                    else: rest.append((a, e))
                r = add(r, mul(from_pd({tuple(rest): c}), powi(b, deg - k)))
            if sgn < 0 and deg % 2: r = neg(r)
            p = r; prog = True
        if not prog: break
    return {'eq0': eq0, 'le0': le0, 'lt0': lt0}[g.op](p)

def ext_arrays(u):
    """(array args, scalar args by name) of an application of a function of array ranges"""
    ps, sig, rng = dsl.EXT[u.args[0]]
    args = list(u.args[1:]); arr = []; sc = {}
    for p, sg in zip(ps, sig):
        if sg == 'A': arr.append((p, args[0], args[1])); args = args[2:]
        else: sc[p] = args.pop(0)
    return arr, sc

def ext_norm(hyps, g, timeout, hints, ints):
    """functions of arrays: where the arrays of a goal's application agree, over the range that matters, with those of
    an application in the hypotheses, use the latter"""
    gs = [u for u in subterms([g], True) if u.op == 'app' and u.args[0] in dsl.EXT]
    if not gs: return g
    hs = gs + [u for u in subterms(hyps, True) if u.op == 'app' and u.args[0] in dsl.EXT]
    end = time.time() + 3 * timeout
    m = {}; memo = {}
    for u in gs:
        if u in m: continue
        arr, sc = ext_arrays(u)
        if any(not isconst(a) for _, a, _ in arr): continue
        done = set()
        for h in hs:
            if h.args[0] != u.args[0] or h is u or h in m: continue
            harr, _ = ext_arrays(h)
            key = tuple(x for _, a, o in harr for x in (a, o))
            if key in done: continue
            done.add(key)
            if key == tuple(x for _, a, o in arr for x in (a, o)): break
            if any(not isconst(a) for _, a, _ in harr): continue
            ok = True
            for (p, a, o), (_, a2, o2) in zip(arr, harr):
                if a is a2 and o is o2: continue
                k = (u.args[0], p, a, o, a2, o2) + tuple(sc.values())
                if k not in memo:
                    e = dsl.SymEnv(None, None, None, {}, NODEC, None); e.loc = dict(sc)
                    n = dsl.tn(dsl.ev(dsl.EXT[u.args[0]][2][p], e))
                    i = fresh('ext', 'I')
                    hh = list(hyps) + [le(ZERO, i), lt(i, n)]
                    d = Decider(); d.sync(nnf_hyps(hh)[0])
                    q = eq(dsl.arr_at(cval(a), add(i, o)), dsl.arr_at(cval(a2), add(i, o2)))
                    if DBG: print('EXT', u.args[0], p, show(q)[:800], 'n', show(n), flush=True)
                    if a is a2:
                        memo[k] = d(eq(o, o2))
                        if memo[k]: continue
                        ok = False; break
                    memo[k] = light(d, q, time.time() + 4) or all(prove1(hh + hs2, q2, min(timeout, max(1, end - time.time())), hints, ints).ok for hs2, q2 in split_goal(q, hh))
                    if DBG and not memo[k]: print('EXT fails', p, show(q)[:1500], 'n', show(n))
                if not memo[k]: ok = False; break
            if ok:
                n = []; hi = list(key); args = list(u.args[1:])
                for p, sg in zip(*dsl.EXT[u.args[0]][:2]):
                    if sg == 'A': n += [hi.pop(0), hi.pop(0)]; args = args[2:]
                    else: n.append(args.pop(0))
                m[u] = app(u.args[0], n, u.sort); break
    return repl(g, m) if m else g

def prove(pc, goal, timeout=20, hints=(), want_model=None, ints=()):
    t0 = time.time()
    parts = split_goal(goal, pc)
    for hs, g in parts:
        g = ext_norm(list(pc) + hs, g, timeout, hints, ints)
        later = False
        if g.op == 'eq0' and any(u.op == 'sum' for u in subterms([g])) and sum_rewrite(list(pc) + hs, g): continue
        if g.op == 'eq0' and any(u.op == 'sum' for u in subterms([g])) and any(u.op == 'ite' for u in subterms([g], True)):
            if sum_cases(list(pc) + hs, g, time.time() + min(2.5, timeout / 5), hints, ints): continue
            later = True
        r = prove1(list(pc) + hs, g, timeout, hints, ints)
        if not r.ok and later and sum_cases(list(pc) + hs, g, time.time() + timeout / 2, hints, ints): continue
        if not r.ok:
            r.time = time.time() - t0
            r.why = r.why or show(g)[:2000]
            return r
    return Result(True, 'z3', t=time.time() - t0)

# ---------------------------------------------------------------- simplification under hypotheses, case splits
def simp(t, dec, memo=None):
    """rewrite with what the decider knows: prune ites, re-canonicalise sums"""
    if memo is None: memo = {}
    def go(t):
        r = memo.get(t)
        if r is not None: return r
        op = t.op
        if op in ('const', 'var', 'bv', 'true', 'false'): r = t
        elif op == 'sum':
            x, n, b = open_sum(t)
            n2 = go(n)
            with dec.assume(le(ZERO, x), lt(x, n2)):
                b2 = simp(b, dec)
                pass
            r = tm.Sum(x, n2, b2, dec)
        elif op == 'ite':
            c = go(t.args[0])
            k = dec.known(c)
            if k is None and c.op == 'and':
                c = and_(*[x for x in flat(c) if dec.known(x) is not True])
            if k is True: r = go(t.args[1])
            elif k is False: r = go(t.args[2])
            else:
                with dec.assume(c): a = simp(t.args[1], dec)
                with dec.assume(not_(c)): b = simp(t.args[2], dec)
                r = ite(c, a, b)
        elif op == 'forall': r = t
        else:
            r = tm.rebuild(t, go)
            if r.op == 'poly' and any(a.op == 'inv' for m, c in r.args[0] for a, e in m): r = cancel_inv(r, dec)
            elif r.op == 'app' and len(r.args) == 2: r = fn_inverse(r, dec)
        memo[t] = r
        return r
    return go(t)

def sum_cases(hyps, goal, end, hints, ints, depth=3):
    """an equation between sums with case distinctions: simplify, take separate terms out, split on the integer conditions that are left"""
    if time.time() > end: return False
    dec = Decider(); dec.sync(nnf_hyps(hyps)[0])
    g = peel(simp(goal, dec), dec)
    if g is TRUE: return True
    cs = [c for c in ite_conds(g) if c.op in ('eq0', 'le0', 'lt0') and c.args[0].sort == 'I' and dec.known(c) is None]
    if not cs or not depth:
        return g is not goal and prove1(hyps, g, max(0.5, end - time.time()), hints, ints).ok
    c = next((c for c in cs if c.op == 'eq0'), cs[0])
    for x in (c, not_(c)):
        if dec(not_(x)): continue
        gx, hx = g, hyps + [x]
        if x.op == 'eq0':
            for mo, k in pd(x.args[0]).items():
                if len(mo) == 1 and mo[0][1] == 1 and mo[0][0].op == 'var' and k in (1, -1):
                    v = mo[0][0]; rest = sub(x.args[0], scale(v, k))
                    if v not in rest.fv and (v.sort != 'I' or rest.sort == 'I'):
                        m = {v: scale(rest, -k)}; gx = repl(g, m); hx = [repl(h, m) for h in hx]; break
        if not sum_cases(hx, gx, end, hints, ints, depth - 1) and not prove1(hx, gx, max(0.5, (end - time.time()) / 2), hints, ints).ok: return False
    return True

def sum_rewrite(hyps, g):
    """cells of the goal by their defining equations, then the cells under its sums by the specification functions they are known to hold"""
    ground, quant = nnf_hyps(hyps)
    def simple(q):
        eqs = [x for x in (q.args[1].args if q.args[1].op == 'or' else (q.args[1],)) if x.op == 'eq0']
        us = [u for e in eqs for u in subterms([e], True)]
        return len(eqs) == 1 and len(q.args[0]) == 1 and sum(u.op == 'app' for u in us) == 1 and sum(u.op == 'read' for u in us) == 1
    sq = [q for q in quant if simple(q)]
    if not sq: return False
    dec = Decider(); dec.sync(ground)
    g1 = simp(rewrite_with(g, [q for q in quant if q not in sq], dec), dec)
    if g1 is TRUE: return True
    g1 = simp(rewrite_deep(g1, sq, dec), dec)
    return g1 is TRUE or dec(g1)

def peel(g, dec):
    """take the last term out of sums whose body treats it separately"""
    m = {}
    for u in subterms([g]):
        if u.op != 'sum': continue
        x, n, b = open_sum(u)
        l = sub(n, ONE)
        if not any(c.op == 'eq0' and x in c.fv and sub(x, l) in (c.args[0], neg(c.args[0])) for w in subterms([b], True) if w.op == 'ite' for c in flat(w.args[0])): continue
        if not dec(le(ONE, n)): continue
        with dec.assume(le(ZERO, x), lt(x, l)): b1 = simp(b, dec)
        m[u] = add(tm.Sum(x, l, b1, dec), simp(tm.subst(b, {x: l}), dec))
    return simp(repl(g, m), dec) if m else g

def cancel_inv(r, dec):
    """b * 1/b = 1 for atoms b known to be non-zero"""
    d = {}; hit = False
    for m, c in r.args[0]:
        mm = dict(m)
        for a in list(mm):
            if a.op == 'inv' and a.args[0] in mm and dec(ne(a.args[0], ZERO)):
                b = a.args[0]; k = min(mm[a], mm[b]); hit = True
                for z in (a, b):
                    mm[z] -= k
                    if not mm[z]: del mm[z]
        d.setdefault(tuple((a, e) for a, e in m if a in mm), [])
        d[tuple((a, e) for a, e in m if a in mm)].append((mm, c))
    if not hit: return r
    out = ZERO
    for l in d.values():
        for mm, c in l: out = add(out, mul(num(c), *[powi(a, e) for a, e in mm.items()]) if mm else num(c))
    return out
def fn_inverse(r, dec):
    f, a = r.args
    if f == 'exp' and a.op == 'app' and a.args[0] == 'log' and dec(lt(ZERO, a.args[1])): return a.args[1]
    if f == 'log' and a.op == 'app' and a.args[0] == 'exp': return a.args[1]
    if f == 'atanh' and a.op == 'app' and a.args[0] == 'tanh': return a.args[1]
    if a is ZERO and f == 'exp': return ONE
    if a is ONE and f == 'log': return ZERO
    return r

def ite_conds(t):
    """conditions of the ites of a term that mention no bound variable, innermost (ite-free) first"""
    out = []
    for u in subterms([t], into_binders=True):
        if u.op == 'ite' and not tm._hasbv(u.args[0]):
            c = u.args[0]
            if not any(v.op == 'ite' for v in subterms([c])): out.append(c)
    return sorted(set(out), key=lambda c: (len(c.fv), c.id))

def repl(t, m):
    """replace atoms (not under binders that capture) and re-canonicalise"""
    memo = {}
    def go(t):
        if t in m: return m[t]
        r = memo.get(t)
        if r is not None: return r
        if t.op in ('const', 'var', 'bv', 'true', 'false', 'forall'): r = t
        elif t.op == 'sum':
            x, n, b = open_sum(t)
            r = tm.Sum(x, go(n), go(b))
        else: r = tm.rebuild(t, go)
        memo[t] = r
        return r
    return go(t)

def unify_atoms(g, dec, ints=False):
    """replace integer division/ite atoms by provably equal simpler ones"""
    for _ in range(3):
        ats = [u for u in subterms([g], into_binders=True) if (u.op in ('tdiv', 'tmod', 'trunc') or ints and u.sort == 'I' and u.op in ('read', 'var')) and not tm._hasbv(u)]
        ats.sort(key=lambda u: (len(show(u)), u.id))
        m = {}
        for i, u in enumerate(ats[:12]):
            if any(u in [z for z in subterms([k])] for k in m): continue
            for v in ats[:i]:
                if v in m or v.sort != u.sort: continue
                hit = None
                for d in (0, 1, -1):
                    if dec(eq(u, add(v, num(d)))): hit = add(v, num(d)); break
                if hit is not None: m[u] = hit; break
        if not m: return g
        g = repl(g, m)
        g = simp(g, dec)
    return g

def rewrite_with(g, quant, dec):
    """replace array cells of the goal by their defining equation, when a quantified hypothesis gives one"""
    defs = []
    for q in quant:
        vs, b = q.args
        if len(vs) > 2: continue
        parts = list(b.args) if b.op == 'or' else [b]
        eqs = [x for x in parts if x.op == 'eq0']
        if len(eqs) != 1: continue
        p = eqs[0].args[0]
        for m, c in pd(p).items():
            if len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'read' and all(v in m[0][0].fv for v in vs):
                a = m[0][0]
                defs.append((vs, a, c, p, [x for x in parts if x is not eqs[0]]))
    if not defs: return g
    done = set()
    for _ in range(6):
        hit = False
        for a in [u for u in subterms([g]) if u.op == 'read']:
            if a in done: continue
            for vs, pat, c, eqp, guards in defs:
                if pat.args[0] is not a.args[0]: continue
                mt = match(pat, a, list(vs))
                if mt is None or any(v not in mt for v in vs): continue
                inst = tm.subst(eqp, mt)
                if not all(dec(not_(tm.subst(x, mt))) for x in guards): continue
                # a = -(inst - c*a)/c
                rest = sub(inst, scale(a, c))
                if a in subterms([rest], into_binders=True): continue
                rhs = scale(rest, tm.norm(tm.Fraction(-1) / c))
                if a.sort == 'I' and rhs.sort != 'I': continue
                done.add(a)
                g = repl(g, {a: rhs}); hit = True
                break
            if hit: break
        if not hit or g is TRUE or g is FALSE: break
    return g

def prove_cases(hyps, ground, goal, timeout, hints, ints, depth, quant=()):
    """simplify the goal under the hypotheses and split on the conditions left in it; None when nothing changes"""
    dec = Decider(); dec.sync(ground)
    g = simp(goal, dec)
    if depth >= 8 and quant and g.op == 'eq0':
        g = simp(rewrite_with(g, quant, dec), dec)
    g = unify_atoms(g, dec)
    if g is TRUE: return Result(True, 'z3/simp')
    if g is FALSE: return None
    ats = []
    for c in ite_conds(g):
        for a in (flat(c) if c.op == 'and' else flat(not_(c)) if c.op == 'or' else (c,)):
            if a not in ats and dec.known(a) is None: ats.append(a)
    if g is goal and not ats: return None
    if not ats or depth <= 0:
        return prove1(hyps, g, timeout, hints, ints, -1)
    c = ats[0]
    t0 = time.time()
    for x in (c, not_(c)):
        if dec(not_(x)): continue
        left = timeout - (time.time() - t0)
        if left <= 0: return Result(False, 'timeout', why=show(g)[:1500])
        gx = g
        if x.op == 'eq0':
            for mo, k in pd(x.args[0]).items():
                if len(mo) == 1 and mo[0][1] == 1 and mo[0][0].op == 'var' and k in (1, -1):
                    v = mo[0][0]; rest = sub(x.args[0], scale(v, k))
                    if v not in rest.fv and (v.sort != 'I' or rest.sort == 'I'): gx = simp(repl(g, {v: scale(rest, -k)}), dec); break
        if gx is TRUE: continue
        r = prove1(hyps + [x], gx, left, hints, ints, depth - 1)
        if not r.ok: return r
    return Result(True, 'z3/cases')

def int_stage(ground, goal):
    '''integer polynomial goal from the integer facts about its variables and their pairwise products (linear arithmetic over monomials)'''
    def isint(h):
        return h.op in ('le0', 'lt0', 'eq0') and h.args[0].sort == 'I' and not any(u.op in ('sum', 'ite', 'app', 'trunc') for u in subterms([h]))
    goals = list(flat(goal))
    if not all(isint(g) for g in goals) or not int_products(goals): return False
    fs = []
    for h in ground:
        if isint(h) and h not in fs: fs.append(h)
    vs = set()
    for g in goals: vs |= {x for x in g.fv if isinstance(x, T)}
    sel = []
    for rnd in range(3):
        new = [h for h in fs if h not in sel and (h.fv & vs) and len({x for x in h.fv if isinstance(x, T)} - vs) <= rnd]
        sel += new
        for h in new: vs |= {x for x in h.fv if isinstance(x, T)}
        if len(sel) > 40: break
    sel = sel[:40]
    lin = [h for h in sel if all(sum(e for a, e in m) <= 1 for m in pd(h.args[0]))][:26]
    pos = [scale(h.args[0], -1) if h.op == 'le0' else sub(scale(h.args[0], -1), ONE) if h.op == 'lt0' else None for h in lin]
    pos = [x for x in pos if x is not None]
    prods = []
    for i, a in enumerate(pos):
        for b in pos[i:]: prods.append(le(ZERO, mul(a, b)))
    for h in lin:
        if h.op == 'eq0':
            for v in vs:
                if v.op == 'var' and v.sort == 'I': prods.append(eq(mul(h.args[0], v), ZERO))
    for g in goals:
        enc = Encoder(); s = z3.SimpleSolver(ctx=enc.ctx); s.set('timeout', 2500)
        for h in sel + prods + divmod_axioms(sel + [g]): s.add(enc.b(h))
        s.add(z3.Not(enc.b(g)))
        if s.check() != z3.unsat: return False
    return True

def rewrite_deep(t, quant, dec):
    '''rewrite_with, also inside the bodies of sums'''
    m = {}
    for u in subterms([t]):
        if u.op == 'sum':
            x, n, b = open_sum(u)
            with dec.assume(le(ZERO, x), lt(x, n)):
                b2 = rewrite_deep(b, quant, dec)
                if b2 is not b: b2 = simp(b2, dec)
            if b2 is not b: m[u] = tm.Sum(x, n, b2, dec)
    if m: t = repl(t, m)
    return rewrite_with(t, quant, dec)

def rewrite_stage(ground, quant, goal, quick, deadline):
    '''equational proof: recursive specifications unfolded once, array cells replaced by their defining equations, case splits,
    denominators cleared'''
    dec = Decider(); dec.sync(ground)
    if DBG:
        for q in quant: print('QUANT', show(q)[:300])
    nq = [0]
    gm = {}
    for h in ground:        # values known to be applications of recursive specifications
        if h.op != 'eq0' or not any(u.op == 'sum' or u.op == 'app' and u.args[0] in dsl.REC for u in subterms([h])): continue
        for mo, k in pd(h.args[0]).items():
            if len(mo) == 1 and mo[0][1] == 1 and mo[0][0].op in ('read', 'var') and k in (1, -1):
                v = mo[0][0]; rest = sub(h.args[0], scale(v, k))
                if v.op == 'var' and '_cut' in str(v.args[0]): break
                if v not in subterms([rest], into_binders=True) and v not in gm: gm[v] = repl(scale(rest, -k), gm); break
    if gm:
        for _ in range(3): goal, g0 = repl(goal, gm), goal
        goal = simp(goal, dec)
        if goal is TRUE: return True
    def peel(g):        # a sum with one term more than another of the goal
        sums = [u for u in subterms([g]) if u.op == 'sum']
        if not 2 <= len(sums) <= 12: return g
        x = var('adj#', 'I'); bod = {u: open_sum(u, x)[1:] for u in sums}; m = {}
        for a in sums:
            for b in sums:
                if a is b or a in m or b in m: continue
                if bod[a][0] is bod[b][0] and bod[a][1] is tm.subst(bod[b][1], {x: add(x, ONE)}):        # a window moved by one
                    if dec(le(ZERO, bod[b][0])): m[a] = add(b, tm.subst(bod[b][1], {x: bod[b][0]}), scale(tm.subst(bod[b][1], {x: ZERO}), -1))
                    continue
                if bod[a][1] is not bod[b][1]: continue
                if sub(bod[a][0], bod[b][0]) is ONE and dec(le(ZERO, bod[b][0])): m[a] = add(b, tm.subst(bod[a][1], {x: bod[b][0]}))
        return simp(repl(g, m), dec) if m else g
    def leaf(g):
        if g is TRUE: return True
        if DBG: print('LEAF', show(g)[:600])
        if any(u.op == 'inv' for u in subterms([g])):
            g = clear_inv(g, lambda c: dec(c) or quick(c, dec.stack[len(ground):], 700))
            if DBG: print('LEAF2', show(g)[:600])
            if g is TRUE: return True
            g = simp(g, dec)
            if g is TRUE: return True
        g = peel(g)
        if g is TRUE: return True
        nq[0] += 1
        return dec(g) or (g.op == 'eq0' and nq[0] < 14 and time.time() < deadline and quick(g, dec.stack[len(ground):], tmo=1500 if nq[0] < 6 else 500))
    def recapps(g): return [u for u in subterms([g]) if u.op == 'app' and u.args[0] in dsl.REC and not tm._hasbv(u)]
    apps0 = frozenset(recapps(goal)); mode = [0]
    def each(g, depth, phase, had):
        apps = recapps(g)
        cand = [u for u in apps if u not in had]
        if phase == 'one' and len(apps) < 2: return False
        for u in sorted(cand, key=lambda u: -len(show(u)))[:5]:
            g2 = unfold(g, [a for a in apps if a is not u])
            if g2 is not g and split(g2, depth, phase): return True
        return False
    def split(g, depth, phase):
        if time.time() > deadline: return False
        g = simp(g, dec)
        if g is TRUE: return True
        if g is FALSE: return False
        for c in ite_conds(g):
            for a in (flat(c) if c.op == 'and' else flat(not_(c)) if c.op == 'or' else (c,)):
                if dec.known(a) is not None: continue
                if depth <= 0: return False
                for x in (a, not_(a)):
                    if dec(not_(x)): continue
                    with dec.assume(x):
                        gx = g
                        if x.op == 'eq0': gx = pin_eq(g, x)
                        if not split(gx, depth - 1, phase): return False
                return True
        if phase == 'start':
            g = peel(g)
            for _ in range(2):
                m = pinned(dec.stack[len(ground):], g, dec) if len(dec.stack) > len(ground) else None
                if m is None: break
                g = simp(repl(g, m), dec)
            if g is TRUE: return True
            if leaf(g): return True
            for mode[0] in (0, 1):
                if each(g, depth, 'one', frozenset()): return True
            g2 = unfold(g, ())
            if g2 is not g and split(g2, depth, 'rw1'): return True
            return split(g, depth, 'rw2')
        if phase in ('one', 'one2', 'one3'):
            if dec(g): return True
            g2 = rewrite_deep(g, [simpq(q) for q in quant], dec)
            if g2 is TRUE or dec(g2): return True
            return phase != 'one3' and each(g2, depth, 'one2' if phase == 'one' else 'one3', apps0) or mode[0] and phase != 'one3' and leaf(g2)
        if phase in ('rw1', 'rw1b', 'rw2'):
            had = set(u for u in subterms([g]) if u.op == 'app')
            g2 = rewrite_deep(g, [simpq(q) for q in quant], dec)
            if g2 is TRUE: return True
            if g2 is not g:
                if phase in ('rw1', 'rw2'):
                    g3 = unfold(g2, had)
                    if g3 is not g2 and split(g3, depth, 'end'): return True
                return split(g2, depth, {'rw1': 'rw1b', 'rw1b': 'end', 'rw2': 'end'}[phase])
            if phase == 'rw2': return False
        return leaf(g)
    def simpq(q):
        if not any(u.op == 'ite' for u in subterms([q.args[1]], True)): return q
        b = simp(q.args[1], dec)
        if b is q.args[1]: return q
        f = forall(q.args[0], b)
        return f if f.op == 'forall' else q
    return split(goal, 7, 'start')

def unfold(g, keep):
    m = {}
    for u in [u for u in subterms([g]) if u.op == 'app' and u.args[0] in dsl.REC and not tm._hasbv(u) and u not in keep][:12]:
        ax = dsl.rec_axiom(u)
        if len(ax) == 1 and ax[0].op == 'eq0':
            for sg in (1, -1):
                rest = sub(u, scale(ax[0].args[0], sg))
                if u not in subterms([rest], into_binders=True): m[u] = rest; break
    return repl(g, m) if m else g

def disj_stage(ground, quant, goal, quick, deadline):
    """case split on the disjunctions that the quantified facts give for the goal's own indices"""
    dec = Decider(); dec.sync(ground)
    reads = [u for u in subterms([goal]) if u.op == 'read']
    if not reads: return False
    ins, _ = instantiate(quant, reads, set(), rounds=1, cap=80)
    def flatten(c, acc):
        for a in flat(c):
            a = simp(a, dec)
            if a is TRUE or has_quant(a): continue
            acc.append(a)
    ors = []
    for i in ins: flatten(i, ors)
    def useful(o):
        return len(o.args) <= 4 and any(x.op == 'eq0' and x.args[0].sort == 'I' for d in o.args for x in (d.args if d.op in ('and', 'or') else (d,)))
    if not any(o.op == 'or' and useful(o) for o in ors): return False
    def squeeze(g):
        for _ in range(3):
            m = None
            for v in sorted((x for x in g.fv if isinstance(x, T) and x.op == 'var' and x.sort == 'I'), key=lambda x: x.id):
                for h in ground + dec.stack[len(ground):]:
                    if h.op != 'le0' or v not in h.fv: continue
                    l = linpoly(h.args[0], v)
                    if l is None or not isconst(l[0]) or cval(l[0]) not in (1, -1): continue
                    b = l[1] if cval(l[0]) == -1 else scale(l[1], -1)
                    if v in b.fv or b.sort != 'I': continue
                    if dec(le(v, b)) and dec(le(b, v)): m = {v: b}; break
                if m: break
            if not m: return g
            g = simp(repl(g, m), dec)
        return g
    def leaf(g, more):
        if DBG: print('DLEAF', show(g)[:500], [show(x)[:200] for x in dec.stack[len(ground):]])
        if g is TRUE: return True
        g = unify_atoms(simp(unfold(unify_atoms(squeeze(g), dec, True), ()), dec), dec, True)
        for h in ground + dec.stack[len(ground):]:
            if h.op == 'eq0' and h.args[0].sort == 'R':
                g2 = pin_eq(g, h)
                if g2 is not g: g = unify_atoms(simp(g2, dec), dec, True)
        if DBG: print('DLEAF1', show(g)[:500])
        if g is TRUE: return True
        g2 = clear_inv(g, lambda c: dec(c) or quick(c, dec.stack[len(ground):] + more, 700)) if any(u.op == 'inv' for u in subterms([g])) else g
        if g2 is TRUE: return True
        return dec(g2) or quick(g2, dec.stack[len(ground):] + more)
    def go(g, todo, units, depth):
        if time.time() > deadline: return False
        # propagate: a disjunct refuted by what is known drops out
        work = []; ch = True; units = list(units)
        for o in todo:
            o = simp(o, dec)
            if o is TRUE: continue
            if o is FALSE: return True
            if o.op == 'or':
                ds = [d for d in o.args if not any(dec.known(x) is False or dec(not_(x)) for x in flat(d))]
                if not ds: return True
                if len(ds) == 1: units += [ds[0]]; return under(g, [x for x in todo if x is not o], units[:-1], ds[0], depth)
                o = or_(*ds) if len(ds) < len(o.args) else o
            work.append(o)
        ors = sorted([o for o in work if o.op == 'or' and useful(o)], key=lambda o: len(o.args))
        if not ors or depth <= 0: return leaf(simp(g, dec), [o for o in work])
        o = ors[0]
        if len(o.args) > 4: return leaf(simp(g, dec), work)
        rest = [w for w in work if w is not o]
        return all(under(g, rest, units, d, depth - 1) for d in o.args)
    def under(g, todo, units, d, depth):
        parts = list(flat(d))
        def rec(k, g, todo):
            if k == len(parts): return go(g, todo, units, depth)
            x = parts[k]
            if x.op == 'or': return rec(k + 1, g, todo + [x])
            if dec(not_(x)): return True
            with dec.assume(x):
                if x.op == 'eq0': g = pin_eq(g, x); todo = [pin_eq(t, x) for t in todo]
                return rec(k + 1, g, todo)
        return rec(0, g, list(todo))
    return go(goal, ors, [], 5)

def pin_eq(g, x):
    best = None
    for mo, k in pd(x.args[0]).items():
        if len(mo) == 1 and mo[0][1] == 1 and mo[0][0].op == 'var' and k in (1, -1):
            v = mo[0][0]; rest = sub(x.args[0], scale(v, k))
            if v not in rest.fv and (v.sort != 'I' or rest.sort == 'I'):
                r = (0 if 'qsk' in str(v.args[0]) else 1, v.id)
                if best is None or r < best[0]: best = (r, v, scale(rest, -k))
    return repl(g, {best[1]: best[2]}) if best else g

def light(dec, goal, deadline, depth=6):
    '''case splits on the conditions inside the goal, deciding each leaf from the ground facts only'''
    if time.time() > deadline: return False
    g = simp(goal, dec)
    if g is TRUE: return True
    if g is FALSE: return False
    g = unify_atoms(g, dec)
    if g is TRUE or dec(g): return True
    if depth <= 0: return False
    for c in ite_conds(g):
        for a in (flat(c) if c.op == 'and' else flat(not_(c)) if c.op == 'or' else (c,)):
            if dec.known(a) is not None: continue
            for x in (a, not_(a)):
                with dec.assume(x):
                    if not light(dec, g, deadline, depth - 1): return False
            return True
    return False

def pinned(ground, goal, dec):
    """an integer variable of the goal squeezed between equal bounds: {var: value}"""
    for v in sorted((x for x in goal.fv if isinstance(x, T) and x.op == 'var' and x.sort == 'I' and ('sk' in str(x.args[0]) or '!' in str(x.args[0]))), key=lambda x: x.id):
        for h in ground:
            if h.op != 'le0' or v not in h.fv: continue
            l = linpoly(h.args[0], v)
            if l is None or not isconst(l[0]) or cval(l[0]) not in (1, -1): continue
            b = l[1] if cval(l[0]) == -1 else scale(l[1], -1)
            if v in b.fv or b.sort != 'I': continue
            if dec(le(v, b)) and dec(le(b, v)): return {v: b}
    return None

def witness_stage(hyps, goal, timeout, hints, ints):
    """an existential goal: try the integer terms of the facts as witnesses"""
    hyps = list(hyps); ex = None
    for d in (goal.args if goal.op == 'or' else (goal,)):
        if d.op == 'not' and d.args[0].op == 'forall' and ex is None and len(d.args[0].args[0]) <= 2: ex = d.args[0]
        else: hyps.append(not_(d))
    if ex is None: return False
    vs = ex.args[0]
    ground, quant = nnf_hyps(hyps)
    hyps = ground + quant
    cnt = {}
    for u in subterms(ground):
        if u.sort == 'I' and not tm._hasbv(u) and (u.op == 'read' or u.op == 'var'): cnt[u] = cnt.get(u, 0) + 1
        if u.op == 'read' and u.args[1].sort == 'I' and not tm._hasbv(u.args[1]): cnt[u.args[1]] = cnt.get(u.args[1], 0) + 2
    cands = sorted(cnt, key=lambda u: (-cnt[u], u.id))[:10 if len(vs) == 1 else 9]
    # the first and the last element of an integer array that a fact ranges over
    for q in quant:
        if len(q.args[0]) != 1: continue
        v = q.args[0][0]
        rs = [u for u in subterms([q.args[1]]) if u.op == 'read' and u.sort == 'I' and u.args[1:] == (v,)]
        if not rs: continue
        lits = [x for d in flat(not_(q.args[1])) for x in flat(d)]
        for x in lits:
            if x.op != 'le0' or v not in x.fv or x.args[0].sort != 'I': continue
            l = linpoly(x.args[0], v)
            if l is None or not isconst(l[0]) or cval(l[0]) not in (1, -1) or v in l[1].fv: continue
            e = scale(l[1], -cval(l[0]))
            for u in rs:
                w = read(u.args[0], e)
                if w not in cands: cands.insert(0, w)
    dec = Decider(); dec.sync(ground)
    end = time.time() + timeout
    for c, quickpass in [(c, qp) for qp in (True, False) for c in itertools.permutations(cands, len(vs))]:
        if time.time() > end: return False
        b = not_(tm.subst(ex.args[1], dict(zip(vs, c))))
        parts = []
        for p in flat(b): parts += split_goal(p, [])
        simple = []; hard = []; bad = False
        for h, p in parts:
            if h or has_quant(p): hard.append((h, p)); continue
            p = simp(p, dec)
            if dec(p): continue
            if dec(not_(p)): bad = True; break
            simple.append((h, p))
        if bad: continue
        ok = True
        for h, p in sorted(simple, key=lambda x: len(show(x[1]))) + hard:
            if not h: p = unify_atoms(p, dec, True)
            if not prove1(hyps + h, p, 0.6 if quickpass else max(1.0, min(timeout / 4, end - time.time())), hints, ints, depth=7).ok: ok = False; break
        if ok: return True
    return False

def edge_stage(hyps, ground, goal, timeout, hints, ints):
    """an index variable that occurs in products: the last (or first) value of its range apart from the others"""
    if goal.op not in ('eq0', 'le0', 'lt0'): return False
    pv = {a for p in int_products([goal]) for a in p if a.op == 'var' and 'qsk' in str(a.args[0])}
    dec = Decider(); dec.sync(ground)
    for v in sorted(pv, key=lambda v: v.id):
        for h in ground:
            if h.op != 'le0' or v not in h.fv: continue
            l = linpoly(h.args[0], v)
            if l is None or not isconst(l[0]) or cval(l[0]) not in (1, -1): continue
            b = l[1] if cval(l[0]) == -1 else scale(l[1], -1)
            if v in b.fv or b.sort != 'I' or isconst(b): continue
            m = {v: b}
            h1 = [repl(x, m) for x in hyps]
            if not prove1(h1, simp(repl(goal, m), dec), timeout / 2, hints, ints, depth=7).ok: continue
            return prove1(list(hyps) + [lt(v, b) if cval(l[0]) == 1 else lt(b, v)], goal, timeout / 2, hints, ints, depth=7).ok
    return False

def prove1(hyps, goal, timeout, hints, ints=(), depth=8):
    dl = DL[0]; DL[0] = smt.DL[0] = min(dl, time.time() + 1.5 * timeout)
    try: return prove1_(hyps, goal, timeout, hints, ints, depth)
    finally: DL[0] = smt.DL[0] = dl
def prove1_(hyps, goal, timeout, hints, ints=(), depth=8):
    if depth == 8 and (goal.op == 'not' and goal.args[0].op == 'forall' or goal.op == 'or' and any(d.op == 'not' and d.args[0].op == 'forall' for d in goal.args)):
        if witness_stage(hyps, goal, timeout / 2, hints, ints): return Result(True, 'z3/witness')
    ground, quant = nnf_hyps(hyps)
    if depth == 8 and any(h.op == 'or' for h in ground):     # disjunctions all but one of whose members are excluded
        dec0 = Decider(); dec0.sync([h for h in ground if h.op != 'or'])
        new = []
        for h in ground:
            if h.op == 'or' and len(h.args) <= 4:
                ls = [d for d in h.args if has_quant(d) or not dec0(not_(d))]
                if len(ls) == 1 and not has_quant(ls[0]): new.append(ls[0])
        ground += new; hyps = list(hyps) + new
    if goal in ground: return Result(True, 'z3/direct')
    if goal.op in ('eq0', 'le0', 'lt0') and depth >= 0 and any(u.op in ('sum', 'inv', 'app', 'ite') for u in subterms([goal])):
        dec0 = Decider(); dec0.sync(ground)
        for _ in range(3):
            m = pinned(ground, goal, dec0)
            if m is None: break
            goal = simp(repl(goal, m), dec0)
            hyps = list(hyps)
            if goal is TRUE: return Result(True, 'z3/pin')
    if depth >= 0 and goal.op in ('le0', 'lt0', 'eq0', 'and') and int_stage(ground, goal): return Result(True, 'z3/int')
    if depth == 8 and goal.op in ('eq0', 'le0', 'lt0') and any(u.op == 'ite' for u in subterms([goal], True)) and not any(u.op in ('sum', 'inv') for u in subterms([goal], True)):
        dl = Decider(); dl.sync(ground)
        if light(dl, goal, time.time() + min(4, timeout / 3)): return Result(True, 'z3/light')
    if goal.op == 'not' and goal.args[0].op == 'forall':
        quant.append(goal.args[0]); goal = FALSE
    elif has_quant(goal):
        g2, q2 = nnf_hyps([not_(goal)])
        ground += g2; quant += q2; goal = FALSE
    def opened(ins):
        out = []
        for i in ins:
            if not has_quant(i): out.append(i); continue
            g2, q2 = nnf_hyps([i])
            out += [g for g in g2 if not has_quant(g)]; quant.extend(q2)
        return out
    def quick(c, more=(), tmo=1500):
        enc = Encoder(); s = z3.SimpleSolver(ctx=enc.ctx); s.set('timeout', tmo)
        gs = [h for h in ground] + list(more)
        for h in gs + product_lemmas(gs + [c], 12) + divmod_axioms(gs + [c]) + misc_axioms([c]): s.add(enc.b(h))
        s.add(z3.Not(enc.b(c)))
        return s.check() == z3.unsat
    if depth == 8 and goal.op == 'eq0' and any(u.op == 'read' or (u.op == 'app' and u.args[0] in dsl.REC) for u in subterms([goal], True)):
        if rewrite_stage(ground, quant, goal, quick, time.time() + min(8, timeout / 2)): return Result(True, 'z3/rewrite')
    if depth == 8 and goal.op in ('eq0', 'le0', 'lt0') and quant:
        if disj_stage(ground, quant, goal, quick, time.time() + min(5, timeout / 2)): return Result(True, 'z3/split')
    if goal is not FALSE:
        if any(u.op == 'inv' for u in subterms([goal])):
            if quant:
                i0, _ = instantiate(quant, [u for u in subterms([goal]) if u.op == 'read'], set(), rounds=1, cap=60)
                i0 = [i for i in i0 if not has_quant(i)]
                ground = ground + i0
            goal = clear_inv(goal, quick)
            if goal is TRUE: return Result(True, 'norm')
    neg = not_(goal)
    seen = set()
    sseen = set(); pseen = set(); nseen = set(); fseen = set()
    base = ground + [neg]
    # skolem constants & simple int terms as extra instantiation terms
    extra = set()
    for u in subterms([neg] + [h for h in hyps[-6:] if not has_quant(h)]):
        if u.op == 'var' and u.sort == 'I': extra.add(u)
    extra = sorted(extra, key=lambda u: u.id)[-6:] + [ZERO]
    rseen = set(); recax = []
    stages = [('basic', 0), ('unfold', 1), ('deep', 2), ('nla', 3)]
    res = None
    insts = []
    lem = []
    deadline = time.time() + timeout
    last = ''
    model = None
    for name, lvl in stages:
        if time.time() > deadline: break
        if lvl == 1 and depth == 8 and edge_stage(hyps, ground, goal, min(timeout / 3, deadline - time.time()), hints, ints): return Result(True, 'z3/edge')
        nonlin = lvl == 3
        if lvl == 0:
            ins, seen = instantiate(quant, [neg] + ground, seen, rounds=2, cap=150, first=[neg])
            insts += opened(ins)
            lem += pair_lemmas([neg] + ground + insts, pseen)
            lem += sum_lemmas([neg], sseen, unfold=False)
            lem += adjacent_lemmas([neg] + ground, pseen)
        elif lvl == 1:
            if not any(u.op == 'sum' for u in subterms(base + insts)) and not quant: continue
            l = sum_lemmas([neg] + insts + ground, sseen | set(), unfold=True)
            l2 = []
            for u in [neg] + insts + ground: pass
            lem += l
            lem += sum_lemmas_all([neg] + insts, fseen)
            ins, seen = instantiate(quant, base + insts + lem, seen, rounds=2, cap=250, extra=extra)
            insts += opened(ins)
            lem += pair_lemmas(base + insts + lem, pseen)
            lem += nonneg_sums(base + insts, nseen)
        elif lvl == 2:
            l = first_lemmas([neg] + insts, fseen)
            lem += l
            lem += sum_lemmas(l, set(sseen), unfold=True)
            ins, seen = instantiate(quant, base + insts + lem, seen, rounds=3, cap=500, extra=extra)
            insts += opened(ins)
            lem += sum_lemmas(base + insts + lem, sseen, unfold=False)
            pl = pair_lemmas(base + insts + lem, pseen, 120)
            lem += pl
            if pl:
                ins, seen = instantiate(quant, base + insts + lem, seen, rounds=2, cap=300)
                insts += opened(ins)
        # unfold recursive specification functions once per application, then relate the sums this brings in
        fr = [neg] + ground + insts + lem
        for rr in range(2 if lvl == 0 else 3):
            us = [u for u in subterms(fr) if u.op == 'app' and u not in rseen and u.args[0] in dsl.REC][:60]
            if not us: break
            rseen.update(us); fr = [a for u in us for a in dsl.rec_axiom(u)]
            recax += fr
        if recax:
            lem += sum_lemmas(recax, sseen, unfold=False)
            if lvl >= 1:
                lem += pair_lemmas(base + insts + lem + recax, pseen, 120)
                ins, seen = instantiate(quant, base + insts + lem + recax, seen, rounds=2, cap=300)
                insts += opened(ins)
        enc = Encoder(nonlin=nonlin)
        s = z3.SimpleSolver(ctx=enc.ctx) if not nonlin else z3.Solver(ctx=enc.ctx)
        tmo = max(1.0, min(timeout * (0.25 if lvl == 0 else 0.35), deadline - time.time()))
        s.set('timeout', int(tmo * 1000))
        fs = ground + insts + lem
        allf = fs + [neg]
        prods = product_lemmas(allf, 40) if not nonlin else []
        ax = divmod_axioms(allf) + misc_axioms(allf)
        ax = ax + recax + divmod_axioms(recax)
        prods2 = product_lemmas(ax, 10) if not nonlin else []
        # axioms can introduce new applications
        try:
            for f in fs + prods + prods2 + ax: s.add(enc.b(f))
            s.add(enc.b(neg))
        except ValueError as e:
            return Result(False, 'encode', why=str(e))
        r = s.check()
        if DBG and r != z3.unsat:
            print('STAGE', name, r, 'GOAL', show(neg)[:600])
            for f in ground: print('   G', show(f)[:500])
            for f in insts: print('   I', show(f)[:700])
            for f in lem: print('   L', show(f)[:700])
        if r == z3.unsat: return Result(True, 'z3/' + name)
        last = '%s: %s' % (name, r if r == z3.sat else s.reason_unknown())
        if r == z3.sat and ints:
            m = s.model(); model = {}
            for v in ints:
                try: model[v.args[0]] = m.eval(enc.n(v), model_completion=True).as_long()
                except Exception: pass
        if lvl == 0 and depth >= 0 and goal.op in ('eq0', 'le0', 'lt0') and any(u.op in ('ite', 'sum', 'app') for u in subterms([goal], True)):
            rc = prove_cases(hyps, ground + [i for i in insts if not has_quant(i)], goal, max(0.5, deadline - time.time()), hints, ints, depth, quant)
            if rc is not None: return rc
        if r == z3.sat and lvl == 0 and not quant and not any(u.op in ('sum',) for u in subterms(base)) and \
                not has_real_products(allf) and not int_products(allf):
            break
    return Result(False, last, model=model, why=show(goal)[:1500] + '   [' + last + ']')

def sum_lemmas_all(ts, seen):
    """unfold-last again on the sums produced"""
    return []
