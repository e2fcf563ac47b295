"""Load C functions mechanically from clang's JSON AST of the current /repo sources."""
import json, subprocess, os, hashlib, re, pickle

class N:
    """a C AST node: kind, type (canonical string), named attributes, children"""
    __slots__ = ('k', 'ty', 'ch', 'name', 'op', 'val', 'ref', 'line', 'cast', 'id', 'extra')
    def __repr__(self): return '%s@%s(%s)' % (self.k, self.line, self.name or self.op or self.val or '')

class Unit:
    def __init__(self):
        self.funcs = {}     # name -> Func
        self.structs = {}   # struct tag -> [(field, type)]
        self.typedefs = {}
        self.enums = {}

class Func:
    __slots__ = ('alias', 'name', 'file', 'params', 'ret', 'body', 'line', 'endline', 'static', 'nloops')

def canon_ty(t):
    return t.replace('const ', '').replace('restrict ', '').replace('volatile ', '').replace(' const', '').strip()

class Loader:
    def __init__(self, path, incs):
        self.path = path
        cmd = ['clang', '-w', '-Xclang', '-ast-dump=json', '-fsyntax-only'] + ['-I' + i for i in incs] + [path]
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        if p.returncode != 0:
            raise RuntimeError('clang failed on %s: %s' % (path, p.stderr.decode()[:500]))
        self.tree = json.loads(p.stdout)
        self.line = 0
        self.file = None
        self.u = Unit()
        self.names = {}
        self.ids = {}

    def pos(self, loc):
        """clang omits file/line when unchanged from the previously printed location"""
        if not loc: return
        if 'spellingLoc' in loc or 'expansionLoc' in loc:
            self.pos(loc.get('spellingLoc', {})); self.pos(loc.get('expansionLoc', {})); return
        if 'file' in loc: self.file = loc['file']
        if 'line' in loc: self.line = loc['line']

    def nid(self, i):
        if i is None: return None
        return self.ids.setdefault(i, len(self.ids) + 1)

    def ty(self, d):
        t = d.get('type')
        if not t: return None
        return canon_ty(t.get('desugaredQualType', t['qualType']))

    def conv(self, d):
        n = N()
        k = d.get('kind')
        n.k = k; n.ty = self.ty(d); n.name = d.get('name'); n.op = d.get('opcode'); n.val = d.get('value')
        n.ref = None; n.cast = d.get('castKind'); n.id = self.nid(d.get('id')); n.extra = None
        self.pos(d.get('loc'))
        r = d.get('range')
        if r:
            self.pos(r.get('begin'))
            n.line = self.line
            self.pos(r.get('end'))
        else: n.line = self.line
        if k == 'DeclRefExpr':
            rd = d['referencedDecl']
            n.ref = self.nid(rd['id']); n.name = rd.get('name'); n.extra = rd['kind']
        elif k == 'MemberExpr':
            n.name = d['name']; n.extra = d.get('isArrow', False)
        elif k == 'UnaryExprOrTypeTraitExpr':
            n.name = d.get('name'); 
            at = d.get('argType')
            n.extra = canon_ty(at.get('desugaredQualType', at['qualType'])) if at else None
        elif k == 'UnaryOperator':
            n.extra = d.get('isPostfix', False)
        elif k == 'CompoundAssignOperator':
            ct = d.get('computeResultType')
            n.extra = canon_ty(ct.get('desugaredQualType', ct['qualType'])) if ct else None
        elif k in ('GotoStmt',):
            n.ref = self.nid(d.get('targetLabelDeclId'))
        elif k == 'LabelStmt':
            n.ref = self.nid(d.get('declId'))
        elif k == 'IfStmt': n.extra = d.get('hasElse', False)
        elif k == 'VarDecl':
            n.extra = d.get('storageClass')
        n.ch = [self.conv(c) for c in d.get('inner', []) if c.get('kind')] if k != 'ForStmt' else \
               [self.conv(c) if c.get('kind') else None for c in d.get('inner', [])]
        return n

    def run(self):
        u = self.u
        for d in self.tree['inner']:
            k = d.get('kind')
            if k == 'TypedefDecl':
                self.pos(d.get('loc'))
                u.typedefs[d['name']] = canon_ty(d['type'].get('desugaredQualType', d['type']['qualType']))
                self._skip(d)
            elif k == 'RecordDecl':
                self._skip(d)
                if d.get('completeDefinition') or d.get('inner'):
                    fl = [(f['name'], canon_ty(f['type'].get('desugaredQualType', f['type']['qualType'])))
                          for f in d.get('inner', []) if f.get('kind') == 'FieldDecl']
                    if fl: u.structs[d.get('name', '?')] = fl
            elif k == 'FunctionDecl':
                hasbody = any(c.get('kind') == 'CompoundStmt' for c in d.get('inner', []))
                if not hasbody: self._skip(d); continue
                self.pos(d.get('loc'))
                f = Func()
                f.name = d['name']; f.line = self.line; f.file = self.path
                f.static = d.get('storageClass') == 'static'
                qt = d['type'].get('desugaredQualType', d['type']['qualType'])
                f.ret = canon_ty(qt[:qt.index('(')])
                r = d.get('range'); self.pos(r.get('begin')); self.pos(r.get('end')); f.endline = self.line
                f.params = []; f.body = None
                for c in d['inner']:
                    if c['kind'] == 'ParmVarDecl':
                        n = self.conv(c); f.params.append((n.id, n.name, n.ty))
                    elif c['kind'] == 'CompoundStmt':
                        f.body = self.conv(c)
                        f.endline = max(f.endline, self.line)
                u.funcs[f.name] = f
            else: self._skip(d)
        return u

    def _skip(self, d):
        """keep the position tracking in step"""
        if isinstance(d, dict):
            self.pos(d.get('loc'))
            r = d.get('range')
            if r: self.pos(r.get('begin')); self.pos(r.get('end'))
            for c in d.get('inner', []): self._skip(c)

def load(path, incs=('/repo/header', '/repo/src'), cache=None):
    key = None
    if cache:
        h = hashlib.sha256()
        import glob
        for p in [path] + sorted(glob.glob('/repo/src/*.h') + glob.glob('/repo/header/*.h')) + [__file__]:
            h.update(open(p, 'rb').read())
        key = os.path.join(cache, os.path.basename(path) + '.' + h.hexdigest()[:24] + '.pkl')
        if os.path.exists(key):
            try: return pickle.load(open(key, 'rb'))
            except Exception: pass
    import sys
    sys.setrecursionlimit(20000)
    u = Loader(path, incs).run()
    if key:
        os.makedirs(cache, exist_ok=True)
        tmp = key + '.%d' % os.getpid()
        pickle.dump(u, open(tmp, 'wb')); os.replace(tmp, key)
    return u

if __name__ == '__main__':
    import sys, time
    t = time.time()
    u = load(sys.argv[1])
    print(time.time() - t, len(u.funcs), list(u.structs)[:50])
    def pr(n, d=0):
        if n is None: return
        print('  ' * d, n, n.ty, n.cast or '', n.extra or '')
        for c in n.ch: pr(c, d + 1)
    for f in sys.argv[2:]:
        print(u.funcs[f].params, u.funcs[f].ret, u.funcs[f].line, u.funcs[f].endline); pr(u.funcs[f].body)
