"""development driver: dev.py [-v|-vv] [-j] FN...   |  dev.py -r FN... (replay)  | dev.py -m MODULEPREFIX"""
import sys, os, time
os.environ.setdefault('CDV_CACHE', '/tmp/cdvcache')
import check, contracts, importlib
os.makedirs('/tmp/cdvcache', exist_ok=True)
args = sys.argv[1:]
v = 0
while args and args[0] in ('-v', '-vv', '-vvv'): v = len(args.pop(0)) - 1
rep = False; only = None
if args and args[0] == '-r': rep = True; args.pop(0)
if args and args[0] == '-o': only = args[1]; args = args[2:]
importlib.import_module(check.MODULE)
P, statics, errs = check.load_program()
if errs: print(errs)
R = contracts.REG
names = []
for a in args:
    if a.endswith('.c'): names += [n for n, c in R.items() if c.file == a]
    else: names.append(a)
if not args: names = list(R)
if rep:
    import tempfile, build, replay, pickle, glob, shutil, random
    wd = tempfile.mkdtemp(prefix='cdvdev_')
    so, err = build.build(check.REPO, statics, wd, extra=sorted(glob.glob(check.ROOT + '/contracts/clients/*.c')))
    if so is None: print(err); sys.exit(1)
    prog = wd + '/prog.pkl'; pickle.dump(P, open(prog, 'wb'))
    import concurrent.futures as cf
    def go(n):
        if R[n].trusted and not R[n].func(P): return n, None, 0
        return (n,) + replay.search({'module': check.MODULE, 'program': prog, 'function': n, 'so': so}, wd, float(os.environ.get('SECS', '4')), 1, seed=int(os.environ.get('SEED', '1')))
    with cf.ThreadPoolExecutor(8) as ex:
        for n, f, runs in ex.map(go, [n for n in names if not R[n].inline]):
            print('%-24s runs=%d %s' % (n, runs, '' if not f else 'BAD %s\n      %s\n   -> %s' % (f['bad'], str(f['args'])[:700], str(f.get('after'))[:500] + ' res=' + str(f.get('result'))[:200])))
            if runs == 0:
                e = glob.glob(wd + '/w_%s_0.jsonl.err' % n)
                if e: print('      ', open(e[0]).read()[-600:])
    shutil.rmtree(wd); sys.exit()
if len(names) == 1 or v:
    import engine
    for n in names:
        if R[n].trusted or R[n].inline or R[n].bounded: continue
        print('==', n); r = engine.verify(P, R[n], verbose=v or 1, timeout=float(os.environ.get('TMO', '20')), only=only); print(engine.summary(r))
else:
    names = [n for n in names if not (R[n].trusted or R[n].inline or R[n].bounded)]
    t0 = time.time()
    res = check.verify_all(P, names, 160, float(os.environ.get('TMO', '10')), time.time() + 2000)
    import engine
    tot = ok = 0
    for n, r in sorted(res.items()):
        if r is None: continue
        s = engine.summary(r)
        b = [o for o in r['obls'] if not o[3]]
        tot += len(r['obls']); ok += len(r['obls']) - len(b)
        print(('OK   ' if not b and not r['error'] else 'FAIL ') + s + ' wall %.1f' % r.get('wall', 0))
        for o in b: print('         %s line %s %s' % (o[0], o[1], o[2][:150]))
    print('total %d/%d  %.1fs' % (ok, tot, time.time() - t0))
