"""check.py PROPERTY [--tier quick|thorough]: verifies every contract the property rests on against /repo's current source."""
import sys, os, json, time, importlib, multiprocessing as mp, shutil, tempfile, pickle, re, glob, hashlib, traceback
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE); sys.path.insert(0, os.path.join(ROOT, 'contracts'))
sys.setrecursionlimit(20000)
REPO = os.environ.get('CDV_REPO', '/repo')
MODULE = 'all_contracts'

def known_findings():
    p = os.path.join(ROOT, 'known_findings.jsonl'); out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('{'): out.append(json.loads(l))
    return out

def parse_one(path):
    import cast
    try: return cast.load(path, incs=(REPO + '/header', REPO + '/src'), cache=os.environ.get('CDV_CACHE'))
    except Exception as e: return 'parse error in %s: %s' % (path, str(e)[:300])

def load_program(canonical=True):
    """every source file of the library, plus the verified clients under /verif/contracts/clients"""
    from contracts import Program
    fs = sorted(glob.glob(REPO + '/src/*.c')) + sorted(glob.glob(ROOT + '/contracts/clients/*.c'))
    with mp.Pool(8) as pool: us = pool.map(parse_one, fs, 1)
    P = Program(); statics = {}; errs = []
    for f, u in zip(fs, us):
        if isinstance(u, str): errs.append(u); continue
        b = os.path.basename(f)
        for n, fn in u.funcs.items():
            if fn.static: statics.setdefault(b, []).append(n) if fn.file == f or os.path.basename(fn.file) == b else None
            if n not in P.funcs: P.funcs[n] = fn
            elif P.funcs[n].file != fn.file: P.funcs[b + ':' + n] = fn
        P.structs.update(u.structs); P.typedefs.update(u.typedefs)
    if canonical:
        import sigs; sigs.canon(P)
    return P, statics, errs

def run_one(P, name, timeout, conn):
    import engine, contracts
    try:
        r = engine.verify(P, contracts.REG[name], timeout=timeout)
    except Exception as e:
        r = {'function': name, 'obls': [], 'error': 'verifier failure: %s: %s' % (type(e).__name__, str(e)[:300]), 'inlined': [], 'called': [],
             'assumptions': [], 'solver_s': 0, 'loops': 0}
    try: conn.send(r)
    except Exception as e: conn.send({'function': name, 'obls': [], 'error': 'result not transferable', 'inlined': [], 'called': [], 'assumptions': [], 'solver_s': 0, 'loops': 0})
    conn.close()

def verify_all(P, entries, fn_timeout, obl_timeout, deadline, nproc=8):
    import contracts
    todo = list(entries); seen = set(todo); res = {}; running = {}
    ctx = mp.get_context('fork')
    todo.sort(key=lambda n: -contracts.REG[n].weight)
    while todo or running:
        while todo and len(running) < nproc:
            n = todo.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=run_one, args=(P, n, obl_timeout, b)); p.start(); b.close()
            running[n] = (p, a, time.time())
        for n, (p, a, t0) in list(running.items()):
            r = None
            if a.poll():
                try: r = a.recv()
                except EOFError: r = None
                p.join(5)
                if r is None: r = blank(n, 'verifier process ended without an answer')
            elif not p.is_alive(): r = blank(n, 'verifier process ended without an answer')
            elif time.time() - t0 > fn_timeout or time.time() > deadline:
                p.kill(); p.join(); r = blank(n, 'time limit')
            if r is None: continue
            r['wall'] = time.time() - t0
            res[n] = r; del running[n]; a.close()
            for c in r['called']:
                con = contracts.REG.get(c)
                if con is not None and c not in seen and not con.inline:
                    seen.add(c)
                    if con.trusted or con.bounded: res.setdefault(c, None)
                    else: todo.append(c)
        time.sleep(0.01)
    return res

def blank(n, why): return {'function': n, 'obls': [], 'error': why, 'inlined': [], 'called': [], 'assumptions': [], 'solver_s': 0, 'loops': 0}

def main(argv):
    prop = argv[0]
    tier = os.environ.get('VERIF_TIER') or 'quick'
    if '--tier' in argv: tier = argv[argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED') or '1')
    t0 = time.time()
    import contracts
    importlib.import_module(MODULE)
    import props
    spec = props.PROPS[prop]
    wd = tempfile.mkdtemp(prefix='cdv_%s_' % prop)
    try: return check(prop, spec, tier, seed, t0, wd)
    finally: shutil.rmtree(wd, ignore_errors=True)

def check(prop, spec, tier, seed, t0, wd):
    import contracts, engine, replay, build
    REG = contracts.REG
    P, statics, errs = load_program()
    quick = tier == 'quick'
    entries = []; missing = []
    for n in spec['functions']:
        c = REG[n]
        if c.func(P) is None: missing.append(n); continue
        entries.append(n)
    proved_entries = [n for n in entries if not REG[n].trusted and not REG[n].bounded]
    res = verify_all(P, proved_entries, 300 if quick else 400, 20 if quick else 60, t0 + (560 if quick else 600))
    bounded = [n for n in set(entries) | set(res) if REG[n].bounded]
    trusted = sorted(n for n in set(entries) | set(res) if REG[n].trusted)
    failures = []          # (function, kind, line, desc, why)
    nobl = ndis = 0; backends = {}; solver = 0.0; assumptions = set(); fns = []; samples = []
    for n, r in sorted(res.items()):
        if r is None: continue
        solver += r.get('solver_s', 0)
        for o in r['obls']:
            kind, line, desc, ok, be, why, model = o
            nobl += 1
            if ok: ndis += 1; backends[be] = backends.get(be, 0) + 1
            else: failures.append((n, kind, line, desc, why, model))
        if r['error']: failures.append((n, 'coverage', 0, r['error'], r['error'], None)); nobl += 1
        elif not r['obls']: failures.append((n, 'vacuity', 0, 'no obligations were generated', '', None)); nobl += 1
        else: fns.append(n)
        for a in r['assumptions']: assumptions.add('%s: %s' % (n, a))
        if len(samples) < 12 and r['obls']:
            for o in r['obls']:
                if o[0] in ('post', 'fact') and len(samples) < 12: samples.append({'function': n, 'obligation': o[2][:200], 'discharged': o[3], 'by': o[4]})
    for e in errs: failures.append(('(translation unit)', 'parse', 0, e, e, None)); nobl += 1
    # a contract that vanished: static helpers may disappear, public functions may not
    gone = [n for n in missing if not REG[n].static]
    for n in gone: failures.append((n, 'missing', 0, 'function %s is no longer defined' % n, '', None)); nobl += 1
    kf = [k for k in known_findings() if k.get('property') == prop and k.get('status') == 'known']
    out_lines = []
    def is_known(f):
        for k in kf:
            if k['function'] == f[0] and re.search(k['obligation'], f[3]): return k
        return None
    known = [(f, is_known(f)) for f in failures]
    printed = set()
    for f, k in known:
        if k and k['id'] not in printed:
            printed.add(k['id']); print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    failures = [f for f, k in known if not k]
    violations = []
    bounded_info = []
    rdir = os.path.join(ROOT, 'evidence', 'replay'); os.makedirs(rdir, exist_ok=True)
    for old in glob.glob(os.path.join(rdir, prop + '-*')): os.remove(old)
    if failures or bounded:
        so, err = (None, '')
        so, err = build.build(REPO, statics, wd, extra=sorted(glob.glob(ROOT + '/contracts/clients/*.c')))
        prog = os.path.join(wd, 'prog.pkl'); pickle.dump(P, open(prog, 'wb'))
        # ---- bounded stand-ins
        for n in sorted(bounded):
            con = REG[n]
            if so is None: failures.append((n, 'bounded', 0, 'library does not build: ' + err[-300:], err, None)); continue
            cfg = {'module': MODULE, 'program': prog, 'function': n, 'so': so, 'models': [], 'maxruns': con.bounded_runs if quick else con.bounded_runs * 6}
            found, runs = replay.search(cfg, wd, 25 if quick else 120, 4, seed)
            bounded_info.append({'function': n, 'runs': runs, 'bound': con.bounded})
            if found and not any(k['function'] == n and re.search(k['obligation'], str(found['bad'])) for k in kf):
                violations.append((n, found, [(n, 'bounded', 0, str(found['bad']), '', None)]))
            elif runs == 0: failures.append((n, 'bounded', 0, 'no run was possible', '', None))
        # ---- replay of failed obligations on the compiled code
        byf = {}
        for f in failures: byf.setdefault(f[0], []).append(f)
        # a function whose failing input is sought: itself, then its callers
        targets = [n for n in byf if n in REG and REG[n].func(P) is not None]
        callers = [m for m, r in res.items() if r and set(r['called']) & set(targets) and m not in targets]
        found_for = {}
        budget = t0 + (700 if quick else 780)
        order = targets + callers
        import threading
        def go(n, secs, np_):
            models = [f[5] for f in byf.get(n, []) if f[5]]
            cfg = {'module': MODULE, 'program': prog, 'function': n, 'so': so, 'models': models or None}
            try:
                found, runs = replay.search(cfg, wd, secs, np_, seed)
                found_for[n] = (found, runs)
            except Exception as e: found_for[n] = (None, 0)
        if so is not None and order:
            for i in range(0, len(order), 4):
                if time.time() > budget: break
                if any(found_for.get(x, (None,))[0] for x in targets) and i >= len(targets): break
                ths = [threading.Thread(target=go, args=(n, 25 if quick else 60, 2)) for n in order[i:i + 4]]
                for t in ths: t.start()
                for t in ths: t.join()
        for n, (found, runs) in sorted(found_for.items()):
            if found and not any(k['function'] == n and re.search(k['obligation'], str(found['bad'])) for k in kf):
                violations.append((n, found, byf.get(n, []) or failures))
        got = {v[0] for v in violations}
        rest = [f for f in failures if f[0] not in got]
        if failures and not violations: violations.append((failures[0][0], None, failures))
        elif rest and not violations: violations.append((rest[0][0], None, rest))
    rc = 0
    for i, (n, found, fl) in enumerate(violations):
        path = os.path.join(rdir, '%s-%d.json' % (prop, i + 1))
        rec = {'property': prop, 'function': n, 'failed_obligations': [{'function': f[0], 'kind': f[1], 'line': f[2], 'obligation': f[3], 'verifier_output': (f[4] or '')[:3000]} for f in fl[:20]]}
        if found: rec['input'] = found.get('args'); rec['violated'] = found.get('bad'); rec['result'] = found.get('result'); rec['after'] = found.get('after')
        json.dump(rec, open(path, 'w'), indent=1, default=str)
        for f in fl[:6]: print('  failed obligation: %s:%s [%s] %s' % (f[0], f[2], f[1], f[3][:240]))
        if found: print('  failing input for %s: %s -> %s' % (n, json.dumps(found.get('args'))[:600], found.get('bad')))
        print('VIOLATION property=%s replay=%s%s' % (prop, path, '' if found else ' no-failing-input-found'))
        rc = 1
    ass = list(contracts.GLOBAL_ASSUMPTIONS) + ['contract of %s is assumed: %s' % (n, REG[n].trusted) for n in trusted] + sorted(assumptions)
    ass += ['%s is checked only by bounded runs (%s), not proved' % (b['function'], b['bound']) for b in bounded_info]
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': spec.get('level', 'proof'),
          'coverage': {'obligations': nobl, 'discharged': ndis, 'checker_cmd': 'python3-vt /verif/cdv/check.py %s --tier %s' % (prop, tier),
                       'trusted_base': contracts.TRUSTED_BASE,
                       'functions_under_contract': fns, 'functions_inlined': sorted({x for r in res.values() if r for x in r['inlined']}),
                       'assumed_contracts': trusted, 'bounded_stand_ins': bounded_info,
                       'back_ends': backends, 'solver_s': round(solver, 2), 'per_function': {n: {'obligations': len(r['obls']), 'discharged': sum(1 for o in r['obls'] if o[3]), 'loops': r['loops'], 'wall_s': round(r['wall'], 2)} for n, r in sorted(res.items()) if r},
                       'known_findings': sorted(printed), 'absent_static_helpers': [n for n in missing if n not in gone], 'samples': samples},
          'assumptions': ass, 'wall_s': round(time.time() - t0, 2), 'violations': len(violations)}
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w'), indent=1)
    print('%s %s: %d/%d obligations discharged over %d functions, %d bounded stand-ins, %.1f s' % (prop, 'VIOLATED' if rc else 'ok', ndis, nobl, len(fns), len(bounded_info), time.time() - t0))
    return rc

def rerun(path):
    import contracts, build, replay
    rec = json.load(open(path))
    if rec.get('input') is None:
        print('no failing input was found; failed obligations:')
        for f in rec['failed_obligations']: print('  %(function)s:%(line)s [%(kind)s] %(obligation)s' % f)
        return 1
    importlib.import_module(MODULE)
    P, statics, errs = load_program()
    wd = tempfile.mkdtemp(prefix='cdv_rr_')
    try:
        so, err = build.build(REPO, statics, wd, extra=sorted(glob.glob(ROOT + '/contracts/clients/*.c')))
        if so is None: print(err); return 1
        prog = os.path.join(wd, 'prog.pkl'); pickle.dump(P, open(prog, 'wb'))
        found, runs = replay.search({'module': MODULE, 'program': prog, 'function': rec['function'], 'so': so, 'input': rec['input']}, wd, 10, 1)
        if found: print('violated again: %s' % found['bad']); return 1
        print('not violated on this tree'); return 0
    finally: shutil.rmtree(wd, ignore_errors=True)

if __name__ == '__main__':
    try: rc = main(sys.argv[1:])
    except SystemExit: raise
    except BaseException as e:
        # the machinery itself failed: report as an undecided obligation, never as success
        traceback.print_exc(limit=-6)
        prop = sys.argv[1]
        d = os.path.join(ROOT, 'evidence', 'replay'); os.makedirs(d, exist_ok=True)
        p = os.path.join(d, prop + '-1.json'); json.dump({'property': prop, 'input': None, 'failed_obligations': [{'function': '-', 'kind': 'machinery', 'line': 0, 'obligation': str(e)[:500]}]}, open(p, 'w'))
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, p)); rc = 1
    sys.exit(rc)
