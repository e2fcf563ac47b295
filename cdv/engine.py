import sys, os, time, glob, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
import cast
from term import *
from sym import *
from contracts import *
import contracts, prove as pv

REPO = os.environ.get('CDV_REPO', '/repo')
def load_program(files, cache=None):
    P = Program()
    for f in files:
        p = os.path.join(REPO, 'src', f)
        u = cast.load(p, incs=(REPO + '/header', REPO + '/src'), cache=cache)
        # static functions of different files may share a name: keep them per file
        for n, fn in u.funcs.items():
            if n not in P.funcs: P.funcs[n] = fn
            elif P.funcs[n].file != fn.file:
                P.funcs[os.path.basename(fn.file) + ':' + n] = fn
        P.structs.update(u.structs); P.typedefs.update(u.typedefs)
    return P

def verify(P, con, timeout=20, verbose=False, only=None, variants=True, retry=True):
    """returns dict with the list of obligations and their status"""
    t0 = time.time()
    f = con.func(P)
    out = {'function': con.name, 'obls': [], 'error': None, 'inlined': [], 'called': [], 'assumptions': [], 'solver_s': 0.0, 'loops': 0}
    if f is None:
        out['error'] = 'function %s not found' % con.name; return out
    for c in contracts.REG.values(): c._f = P.funcs.get(c.name)
    import itertools
    nl = [p for p, s in con.params.items() if s.endswith('?')]
    if len(nl) > 3: nl = []        # symbolic, see contracts.setup
    vs = [()] + [(a,) for a in con.alias] + [tuple((p, 'NULL') for p in k) for r in range(1, len(nl) + 1) for k in itertools.combinations(nl, r)]
    if not variants: vs = vs[:1]
    import itertools
    cs = [list(zip(con.split, v)) for v in itertools.product((True, False), repeat=len(con.split))]
    rs = range(con.residue[1]) if con.residue else [0]
    runs = [(v, c, r) for v in vs for c in cs for r in rs]
    anyreach = False
    for ri, (variant, cconds, resid) in enumerate(runs):
        E = VExec(P, contracts.REG, con)
        E.caseconds = cconds; E.residue_r = resid
        try:
            try: obls = E.run(variant)
            except EmptyCase: continue
            anyreach = anyreach or E.reach > 0
            if E.reach == 0 and not cconds: out['error'] = 'no reachable exit (vacuous)'
        except Unsupported as e:
            out['error'] = 'outside the verified subset: %s' % e
            if verbose > 2: traceback.print_exc(limit=-8)
            obls = E.obls
        except RecursionError:
            out['error'] = 'recursion limit'; obls = E.obls
        out['inlined'] = sorted(set(out['inlined']) | E.inlined); out['called'] = sorted(set(out['called']) | E.called)
        out['assumptions'] = sorted(set(out['assumptions']) | E.assumptions)
        out['loops'] += E.stats['loop_rules']
        out['exec_s'] = time.time() - t0
        out['dec'] = (E.dec.nq, round(E.dec.time, 2), E.dec.hits)
        if verbose: print('   exec %.2fs, decider %s, %d obligations (%d open)' % (time.time() - t0, out['dec'], len(obls), sum(not o.done for o in obls)))
        if out['error']: 
            pass
        ints = [v for v in (E.entry or {}).values() if isinstance(v, T) and v.op == 'var' and v.sort == 'I']
        n = 0
        for o in obls:
            n += 1
            tag = ''.join('[%s=%s]' % v for v in variant) + ''.join('[%s%s]' % ('' if b else 'not ', c) for c, b in cconds) + ('[%s mod %d = %d]' % (con.residue + (resid,)) if con.residue else '')
            if o.done:
                out['obls'].append((o.kind, o.line, o.desc + tag, True, 'z3/direct', '', None)); continue
            if out['error'] and o.kind == 'post': pass
            if only and only not in o.desc: continue
            r = pv.prove(o.pc, o.goal, timeout, ints=ints)
            out['solver_s'] += r.time
            if not r.ok and retry and 'timeout' in r.why + r.backend:       # a busy machine: once more with a larger budget, until one attempt fails for good
                r2 = pv.prove(o.pc, o.goal, timeout * 2.5, ints=ints)
                out['solver_s'] += r2.time
                if r2.ok: r = r2
                else: retry = False
            if verbose and (not r.ok or r.time > 2): print('   %s line %s %s: %s  %s (%.2fs)' % (o.kind, o.line, o.desc[:150], r.ok, r.backend, r.time))
            if verbose and not r.ok:
                print('      GOAL', show(o.goal)[:1500])
                if verbose > 1:
                    for c in o.pc: print('        PC', show(c)[:600])
                    print('      WHY', r.why[:1500])
            out['obls'].append((o.kind, o.line, o.desc + tag, r.ok, r.backend, r.why, r.model))
        # the facts at the exits must not be contradictory (neither the specification nor the prover may make every exit vacuous)
        if not only and not cconds and ri == 0:
            pcs = {tuple(o.pc): o.pc for o in obls if o.kind == 'post'}
            left = sorted(pcs.values(), key=len)
            tv = time.time(); vac = bool(left)
            for pc in left[:8]:
                if not pv.prove(pc, FALSE, 0.8).ok: vac = False; break
            if vac: out['obls'].append(('vacuity', con.func(P).line, 'the facts at some exit are satisfiable', False, 'z3', 'false was derived at every exit', None))
            out['vacuity_s'] = time.time() - tv
    if not anyreach and not out['error']: out['error'] = 'no reachable exit (vacuous)'
    out['solver_s'] += E.dec.time + E.dec2.time
    out['time'] = time.time() - t0
    return out

def summary(out):
    ok = sum(1 for o in out['obls'] if o[3]); n = len(out['obls'])
    return '%-22s %d/%d %s  %.1fs inl=%s' % (out['function'], ok, n, out['error'] or '', out.get('time', 0), ','.join(out['inlined']))

if __name__ == '__main__':
    import importlib
    mod = sys.argv[1]
    sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'contracts'))
    m = importlib.import_module(mod)
    files = sorted({c.file for c in contracts.REG.values()})
    P = load_program(files, cache='/tmp/cdvcache')
    names = sys.argv[2:]
    verbose = 1
    if names and names[0] == '-vv': verbose = 2; names = names[1:]
    for n in names or list(contracts.REG):
        c = contracts.REG[n]
        if c.trusted or c.inline: continue
        print('==', n)
        r = verify(P, c, verbose=verbose)
        print(summary(r))
