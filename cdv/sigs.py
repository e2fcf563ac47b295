"""names.json: parameter and local-variable names of the functions under contract, as the contracts spell them.
A later tree that renames a parameter or a local is mapped back by position, so contracts do not depend on names."""
import os, json, difflib
FILE = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'contracts', 'names.json')
def locals_of(f):
    out = []
    def go(n):
        if n is None: return
        if n.k == 'VarDecl': out.append((n.name, n.ty))
        for c in n.ch: go(c)
    go(f.body)
    return out
def write(P, names):
    d = {}
    for n in sorted(names):
        f = P.funcs.get(n)
        if f is not None: d[n] = {'params': [p[1] for p in f.params], 'locals': locals_of(f)}
    json.dump(d, open(FILE, 'w'), indent=0)
def canon(P):
    try: d = json.load(open(FILE))
    except OSError: return
    for n, s in d.items():
        f = P.funcs.get(n)
        if f is None: continue
        f.alias = {}
        if len(f.params) == len(s['params']):
            for (pid, p, t), b in zip(f.params, s['params']):
                if b != p: f.alias[b] = p
            f.params = [(pid, b, t) for (pid, p, t), b in zip(f.params, s['params'])]
        cur = locals_of(f)
        base = [tuple(x) for x in s['locals']]
        cn = {x[0] for x in cur}; bn = {x[0] for x in base}
        m = [x for x in base if x[0] not in cn]; w = [x for x in cur if x[0] not in bn]
        if m and w:
            if [x[1] for x in m] == [x[1] for x in w]:
                for a, b in zip(m, w): f.alias[a[0]] = b[0]
            else:
                sm = difflib.SequenceMatcher(None, [x[1] for x in m], [x[1] for x in w], autojunk=False)
                for i, j, k in sm.get_matching_blocks():
                    for q in range(k): f.alias[m[i + q][0]] = w[j + q][0]
if __name__ == '__main__':
    import sys
    sys.path.insert(0, os.path.dirname(FILE))
    import check, contracts, importlib
    os.environ.setdefault('CDV_CACHE', '/tmp/cdvcache')
    importlib.import_module(check.MODULE)
    P, st, er = check.load_program(canonical=False)
    write(P, [n for n, c in contracts.REG.items()])
