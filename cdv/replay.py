"""Concrete replay of a contract against the compiled code of /repo: searches for an input that satisfies the
precondition and violates the postcondition (or the memory discipline).  Used only after a proof has failed, to turn the
failed obligation into a failing input.  Usage: replay.py FILE.json re-runs a recorded failing input."""
import sys, os, json, time, random, math, ctypes, re, subprocess, tempfile, shutil, importlib
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(10000)
from ctypes import c_double, c_int, c_void_p, c_char, c_long, c_ulong, POINTER

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('CDV_REPO', '/repo')
sys.path.insert(0, os.path.join(HERE, '..', 'contracts'))

class Skip(Exception): pass
class Bad(Exception): pass

CT = {'double': c_double, 'float': ctypes.c_float, 'int': c_int, 'unsigned int': ctypes.c_uint, 'long': c_long, 'size_t': c_ulong,
      'unsigned long': c_ulong, 'char': c_char, 'short': ctypes.c_short}
ARRTY = re.compile(r'^(.*?)\s*\[(\d*)\](.*)$')

class Types:
    def __init__(s, P): s.P = P; s.cache = {}
    def resolve(s, ty):
        star = ''; t = ty.strip()
        while t.endswith('*'): t = t[:-1].strip(); star += '*'
        n = 0
        while t in s.P.typedefs and s.P.typedefs[t] != t and n < 6: t = s.P.typedefs[t]; n += 1
        if t.endswith('*'): return t + star
        return t + (' ' + star if star else '')
    def isptr(s, ty): ty = s.resolve(ty); return ty.endswith('*') or '(*' in ty
    def ct(s, ty):
        ty = s.resolve(ty)
        if ty.endswith('*') or '(*' in ty: return c_void_p
        m = ARRTY.match(ty)
        if m: return s.ct(m.group(1) + m.group(3)) * int(m.group(2) or 0)
        if ty in CT: return CT[ty]
        if ty.startswith('struct ') or ty in s.P.structs: return s.struct(ty[7:] if ty.startswith('struct ') else ty)
        if ty.startswith('enum '): return c_int
        raise Skip('type ' + ty)
    def struct(s, tag):
        if tag in s.cache: return s.cache[tag]
        C = type('S_' + tag, (ctypes.Structure,), {})
        s.cache[tag] = C
        C._fields_ = [(f, s.ct(t)) for f, t in s.P.structs[tag]]
        return C

class Mem:
    def __init__(s):
        s.libc = ctypes.CDLL(None)
        s.libc.malloc.restype = c_void_p; s.libc.malloc.argtypes = [c_ulong]
        s.libc.free.argtypes = [c_void_p]
        s.ptrs = []
    def alloc(s, n):
        p = s.libc.malloc(n); s.ptrs.append(p); return p
    def reset(s):
        for p in s.ptrs: s.libc.free(p)
        s.ptrs = []

class DObj(dict):
    __getattr__ = dict.__getitem__
class Obj:
    """a C structure: attribute access gives numbers, lists, strings or nested objects"""

def put_array(mem, vals, ct):
    n = len(vals)
    p = mem.alloc(n * ctypes.sizeof(ct))
    if n:
        a = (ct * n).from_address(p)
        for i, v in enumerate(vals): a[i] = v
    return p
def get_array(p, n, ct):
    if not p: return None
    if n <= 0: return []
    return list((ct * n).from_address(p))

STYLES = ('normal', 'small', 'pos', 'ints', 'const', 'zero', 'mixed', 'unit', 'sorted')
def rnd_real(rng, style):
    if style == 'normal': return rng.gauss(0, 2)
    if style == 'small': return rng.choice([-0.5, -0.25, 0.0, 0.25, 0.5, 0.1, -0.1, 0.75])
    if style == 'pos': return math.exp(rng.gauss(0.5, 1))
    if style == 'ints': return float(rng.randint(-4, 4))
    if style == 'zero': return 0.0
    if style == 'unit': return rng.uniform(0.001, 0.999)
    if style == 'mixed': return rng.choice([0.0, 1.0, -1.0, rng.gauss(0, 3), rng.gauss(0, 0.1), 100.0 * rng.gauss(0, 1)])
    return rng.gauss(0, 1)
def rnd_array(rng, n, style, isint):
    if isint: return [rng.randint(0, 3) if style in ('pos', 'unit') else rng.randint(-3, 6) for _ in range(n)]
    if style == 'const':
        c = rng.gauss(0, 2); return [c] * n
    v = [rnd_real(rng, style) for _ in range(n)]
    if style == 'sorted': v.sort()
    if style == 'asc':
        c = rng.gauss(0, 2); v = []
        for _ in range(n): v.append(c); c += rng.choice([1.0, rng.uniform(0.05, 3)])
    return v
def rnd_int(rng, hint=None):
    if hint: return rng.randint(*hint)
    r = rng.random()
    if r < 0.55: return rng.randint(0, 6)
    if r < 0.85: return rng.randint(1, 14)
    if r < 0.97: return rng.randint(1, 40)
    return rng.randint(-2, 3)

class Replayer:
    def __init__(self, P, con, lib, REGmod):
        import dsl, contracts
        self.dsl = dsl; self.OBJ = contracts.OBJ
        self.P = P; self.con = con; self.T = Types(P); self.lib = lib
        self.f = con.func(P)
        if self.f is None: raise Skip('no function')
        f = self.f
        b = os.path.basename(f.file)
        if f.static:
            g = getattr(lib, 'cdv_ptr_%s__%s' % (re.sub(r'\W', '_', b), f.name)); g.restype = c_void_p
            addr = g()
        else: addr = ctypes.cast(getattr(lib, f.name), c_void_p).value
        args = [self.T.ct(t) if not self.T.isptr(t) else c_void_p for _, _, t in f.params]
        ret = self.T.resolve(f.ret)
        self.rett = None if ret == 'void' else c_void_p if self.T.isptr(ret) else self.T.ct(ret)
        self.fn = ctypes.CFUNCTYPE(self.rett, *args)(addr)
        self.argt = args
        self.mem = Mem()
        self.lib.cdv_live_get.restype = c_long
        self.hints = con.replay or {}

    # -------- inputs (python values, JSON-able)
    def gen(self, rng, model):
        con = self.con; f = self.f; dsl = self.dsl
        style = rng.choice(STYLES)
        names = {}
        for _, p, t in f.params:
            if self.T.isptr(t): continue
            ty = self.T.resolve(t)
            h = self.hints.get(p)
            if ty in ('double', 'float'):
                if isinstance(h, (list, tuple)) and h and h[0] == 'choice': v = rng.choice(h[1])
                elif isinstance(h, (list, tuple)): v = rng.uniform(*h)
                else: v = rng.choice([rnd_real(rng, style), rnd_real(rng, 'unit'), 0.0, 1.0, 0.5, rnd_real(rng, 'normal')])
            elif ty in CT:
                if isinstance(h, (list, tuple)) and h and h[0] == 'choice': v = rng.choice(h[1])
                elif model and p in model and rng.random() < 0.3 and abs(model[p]) < 200: v = model[p]
                else: v = rnd_int(rng, h if isinstance(h, (list, tuple)) else None)
            else: raise Skip('by-value ' + ty)
            names[p] = v
        aliased = {}
        alias = list(con.alias)
        if alias and rng.random() < 0.25: aliased = dict([rng.choice(alias)])
        for _, p, t in sorted(f.params, key=lambda x: con.prank(x[1], [q[1] for q in f.params if self.T.isptr(q[2])])):     # lengths may refer to objects
            if not self.T.isptr(t): continue
            if p in aliased: names[p] = ('alias', aliased[p]); continue
            ps = con.pspec(p)
            if ps is None: raise Skip('no spec for ' + p)
            if ps.nullable and rng.random() < 0.2: names[p] = None; continue
            if ps.mode in ('fn', 'any'):
                if p in self.hints and self.hints[p] is None: names[p] = None; continue
                raise Skip('function pointer')
            if ps.mode == 'null': names[p] = None; continue
            if ps.mode == 'str':
                names[p] = rng.choice(self.hints.get(p) or ['abc', 'full']); continue
            if ps.obj: names[p] = self.gen_obj(rng, ps.obj, style); continue
            try: n = dsl.cev(ps.len, dsl.CEnv(names, names))
            except ZeroDivisionError: return None
            if n < 0 or n > 4000: return None
            et = self.T.resolve(t)[:-1].strip()
            if et == 'double' or et == 'int':
                st = rng.choice(STYLES) if rng.random() < 0.2 else style
                h = self.hints.get(p)
                if isinstance(h, str): st = h
                if et == 'int' and isinstance(h, (list, tuple)): names[p] = [rng.randint(*h) for _ in range(n)]
                elif callable(h): names[p] = h(rng, names, n)
                else: names[p] = rnd_array(rng, n, st, et == 'int')
                if ps.mode == 'out': names[p] = [777.25 if et == 'double' else 777] * n
            else: raise Skip('array of ' + et)
        fix = self.hints.get('_fix')
        if fix: fix(rng, names)
        return names

    def gen_obj(self, rng, oname, style):
        spec = self.OBJ[oname]; h = spec.get('replay') or {}
        d = DObj(); d['_obj'] = oname
        for f, t in self.P.structs[spec['struct']]:
            ty = self.T.resolve(t)
            if f in spec['fields']: continue
            m = ARRTY.match(ty) if not ty.endswith('*') else None
            if m:
                et = (m.group(1) + m.group(3)).strip()
                if et == 'char': d[f] = rng.choice(h.get(f) or [''])
                elif et in ('double', 'int'): d[f] = rnd_array(rng, int(m.group(2) or 0), style, et == 'int')
                continue
            if self.T.isptr(ty): d[f] = None; continue
            hh = h.get(f)
            if ty in ('double', 'float'): d[f] = rng.uniform(*hh) if hh else rnd_real(rng, rng.choice(['normal', 'unit', 'pos']))
            elif ty in CT: d[f] = (rng.choice(hh[1]) if hh and hh[0] == 'choice' else rnd_int(rng, hh))
        fix = h.get('_fix')
        if fix: fix(rng, d)
        nm = {k: v for k, v in d.items()}
        for f, s in spec['fields'].items():
            m = re.match(r'^(\w+)\((.*)\)$', s) or re.match(r'^(\w+)\[(.*)\]$', s)
            kind = m.group(1) if m else s
            if kind in ('flex', 'buf', 'rbuf'):
                n = self.dsl.cev(m.group(2), self.dsl.CEnv(nm, nm))
                if n < 0 or n > 20000: return None
                et = self.T.resolve(dict(self.P.structs[spec['struct']])[f])
                isint = et.startswith('int')
                d[f] = rnd_array(rng, n, h.get('_' + f, rng.choice(['normal', 'unit', style])), isint)
            elif kind == 'at': d[f] = ['at'] + [x.strip() for x in m.group(2).split(',', 1)]
            elif kind in ('obj', 'mobj'): d[f] = self.gen_obj(rng, m.group(2), style)
            elif kind == 'NULL': d[f] = None
            elif kind == 'any': d[f] = None
            elif kind == 'fn': d[f] = ['fn', m.group(2), rng.uniform(0, 3), rng.gauss(0, 2), rng.gauss(0, 2), rng.uniform(0, 4), rng.gauss(0, 1)]
        fix = h.get('_post')
        if fix: fix(rng, d)
        return d

    # -------- caller-supplied functions of one variable
    def callback(self, v):
        c = v[2:]
        def F(x, p=None): return c[0] * (x - c[1]) ** 2 + c[2] * math.sin(c[3] * x) + c[4] * x
        self.dsl.CALLBACKS[v[1]] = F
        self.keep = getattr(self, 'keep', [])[-20:]
        cb = ctypes.CFUNCTYPE(c_double, c_double, c_void_p)(F); self.keep.append(cb)
        return ctypes.cast(cb, c_void_p).value
    # -------- concrete memory
    def put_obj(self, d):
        spec = self.OBJ[d['_obj']]
        C = self.T.struct(spec['struct'])
        flex = [f for f, s in spec['fields'].items() if s.startswith('flex')]
        size = ctypes.sizeof(C)
        extra = 0
        for f in flex: extra += 8 * len(d[f])
        p = self.mem.alloc(size + extra)
        ctypes.memset(p, 0, size + extra)
        o = C.from_address(p)
        for f, t in self.P.structs[spec['struct']]:
            if f not in d: continue
            v = d[f]
            ty = self.T.resolve(t)
            m = ARRTY.match(ty) if not ty.endswith('*') else None
            if m:
                et = (m.group(1) + m.group(3)).strip()
                if et == 'char': ctypes.memmove(p + getattr(C, f).offset, v.encode() + b'\0', len(v) + 1)
                else:
                    a = (CT[et] * len(v)).from_address(p + getattr(C, f).offset)
                    for i, x in enumerate(v): a[i] = x
            elif isinstance(v, dict): setattr(o, f, self.put_obj(v))
            elif isinstance(v, list) and v and v[0] == 'at': pass
            elif isinstance(v, list) and v and v[0] == 'fn': setattr(o, f, self.callback(v))
            elif isinstance(v, list):
                setattr(o, f, put_array(self.mem, v, CT[ty[:-1].strip()]))
            elif v is None: setattr(o, f, None)
            else: setattr(o, f, v)
        sc = {k: v for k, v in d.items() if not isinstance(v, (list, dict))}
        for f, s in spec['fields'].items():
            if s.startswith('at('):
                base, off = [x.strip() for x in s[3:-1].split(',', 1)]
                k = self.dsl.cev(off, self.dsl.CEnv(sc, sc))
                setattr(o, f, p + getattr(C, base).offset + 8 * k)
        return p
    def get_obj(self, p, oname):
        if not p: return None
        spec = self.OBJ[oname]
        C = self.T.struct(spec['struct'])
        o = C.from_address(p)
        r = Obj()
        sc = {}
        for f, t in self.P.structs[spec['struct']]:
            ty = self.T.resolve(t)
            m = ARRTY.match(ty) if not ty.endswith('*') else None
            if m:
                et = (m.group(1) + m.group(3)).strip()
                if et == 'char': v = ctypes.string_at(p + getattr(C, f).offset, int(m.group(2))).split(b'\0')[0].decode('latin1'); sc[f] = v
                elif f in spec['fields'] or et not in CT: continue
                else: v = list((CT[et] * int(m.group(2) or 0)).from_address(p + getattr(C, f).offset))
                setattr(r, f, v)
            elif ty in CT: v = getattr(o, f); setattr(r, f, v); sc[f] = v
            elif self.T.isptr(ty): setattr(r, f, None)
        r._addr = p
        for f, s in spec['fields'].items():
            m = re.match(r'^(\w+)\((.*)\)$', s) or re.match(r'^(\w+)\[(.*)\]$', s)
            kind = m.group(1) if m else s
            ty = self.T.resolve(dict(self.P.structs[spec['struct']])[f])
            if kind == 'flex':
                n = self.dsl.cev(m.group(2), self.dsl.CEnv(sc, sc))
                et = ARRTY.match(ty); et = (et.group(1) + et.group(3)).strip()
                setattr(r, f, get_array(p + getattr(C, f).offset, n, CT[et]))
            elif kind in ('buf', 'rbuf'):
                n = self.dsl.cev(m.group(2), self.dsl.CEnv(sc, sc))
                setattr(r, f, get_array(getattr(o, f), n, CT[ty[:-1].strip()]))
            elif kind in ('obj', 'mobj'): setattr(r, f, self.get_obj(getattr(o, f), m.group(2)))
        for f, s in spec['fields'].items():
            if s.startswith('at('):
                base, off = [x.strip() for x in s[3:-1].split(',', 1)]
                k = self.dsl.cev(off, self.dsl.CEnv(sc, sc))
                q = getattr(o, f)
                b0 = p + getattr(C, base).offset
                if q is None or q != b0 + 8 * k: setattr(r, f, None); r._bad = f
                else: setattr(r, f, getattr(r, base)[k:])
        return r

    def to_view(self, names, ptrs):
        """python view of the arguments in the current memory"""
        out = {}
        for _, p, t in self.f.params:
            v = names[p]
            if not self.T.isptr(t): out[p] = v; continue
            if v is None or isinstance(v, str): out[p] = v; continue
            ps = self.con.pspec(p)
            if isinstance(v, tuple): out[p] = None; continue
            if ps.obj: out[p] = self.get_obj(ptrs[p], ps.obj)
            else: out[p] = get_array(ptrs[p], len(v), CT[self.T.resolve(t)[:-1].strip()])
        for p, v in names.items():
            if isinstance(v, tuple): out[p] = out[v[1]]
        return out

    def inv_ok(self, o, oname):
        sc = dict(vars(o))
        for i in self.OBJ[oname]['inv']:
            if not self.dsl.cev(i, self.dsl.CEnv(sc, sc)): return False
        for f, s in self.OBJ[oname]['fields'].items():
            if s.startswith('obj(') or s.startswith('mobj('):
                x = getattr(o, f, None)
                if x is not None and not self.inv_ok(x, s[s.index('(') + 1:-1]): return False
        return True
    def pre_ok(self, names):
        """evaluate requires on the python values"""
        dsl = self.dsl
        self.mem.reset()
        try:
            ptrs = self.place(names)
            view = self.to_view(names, ptrs)
            s = dsl.TOL; dsl.TOL = 0.0
            try:
                for _, p, t in self.f.params:
                    ps = self.con.pspec(p) if self.T.isptr(t) else None
                    if ps is not None and ps.obj and view[p] is not None:
                        if not self.inv_ok(view[p], ps.obj): return None
                if self.con.exits and dsl.cev(self.con.exits, dsl.CEnv(view, view)): return None
                for r in self.con.requires:
                    if not dsl.cev(r, dsl.CEnv(view, view)): return None
                for r in self.hints.get('_where', ()):      # well-conditioned inputs only
                    if not dsl.cev(r, dsl.CEnv(view, view)): return None
            finally: dsl.TOL = s
        except (ZeroDivisionError, OverflowError, ValueError, IndexError): return None
        return ptrs
    def place(self, names):
        ptrs = {}
        for _, p, t in self.f.params:
            if not self.T.isptr(t): continue
            v = names[p]
            if v is None: ptrs[p] = None
            elif isinstance(v, str):
                q = self.mem.alloc(len(v) + 1); ctypes.memmove(q, v.encode() + b'\0', len(v) + 1); ptrs[p] = q
            elif isinstance(v, dict): ptrs[p] = self.put_obj(v)
            elif isinstance(v, (list, tuple)) and v and v[0] == 'alias': pass
            else: ptrs[p] = put_array(self.mem, v, CT[self.T.resolve(t)[:-1].strip()])
        for p, v in names.items():
            if isinstance(v, (tuple, list)) and v and v[0] == 'alias': ptrs[p] = ptrs[v[1]]
        return ptrs

    def run(self, names, ptrs=None):
        """returns list of violated clauses (strings)"""
        dsl = self.dsl; con = self.con
        names = {k: tuple(v) if isinstance(v, list) and v and v[0] == 'alias' else v for k, v in names.items()}
        if ptrs is None: self.mem.reset(); ptrs = self.place(names)
        old = self.to_view(names, ptrs)
        args = [ptrs[p] if self.T.isptr(t) else names[p] for _, p, t in self.f.params]
        self.lib.cdv_live_set(c_long(0))
        res = self.fn(*args)
        live = self.lib.cdv_live_get()
        bad = []
        new = self.to_view(names, ptrs)
        exp = 0
        if self.rett is c_void_p:
            if con.ret and con.ret.startswith('new['):
                exp = 1
                n = dsl.cev(con.ret[4:-1], dsl.CEnv(new, old))
                res_v = get_array(res, n, c_double) if res else None
                if res is None: bad.append('result is NULL')
            elif con.ret and con.ret.startswith('obj('):
                exp = None
                res_v = self.get_obj(res, con.ret[4:-1])
                if res_v is None: bad.append('result is NULL')
                elif getattr(res_v, '_bad', None): bad.append('result->%s does not point where the contract says' % res_v._bad)
            else: res_v = res; exp = None
        else: res_v = res
        if con.frees: exp = None
        if exp is not None and live != exp: bad.append('memory discipline: %d heap block(s) allocated by the call are still live (expected %d)' % (live, exp))
        for _, p, t in self.f.params:
            ps = con.pspec(p) if self.T.isptr(t) else None
            if ps is None or names[p] is None or isinstance(names[p], tuple): continue
            if ps.mode == 'in' and any(isinstance(v, tuple) and v[1] == p for v in names.values()): continue
            if ps.mode == 'in' and repr(new[p]) != repr(old[p]): bad.append('frame: read-only argument %s was modified' % p)
        env = dsl.CEnv(new, old, res_v)
        if res_v is None and self.rett is c_void_p: return bad
        for nm, txt in con.facts + con.ensures:
            try:
                ok = dsl.cev(txt, env)
            except (ZeroDivisionError, OverflowError, ValueError, IndexError, NotImplementedError, KeyError, AttributeError, TypeError) as e:
                continue
            if not ok: bad.append('ensures %s: %s' % (nm, txt))
        self.result = res_v if not isinstance(res_v, Obj) else {k: v for k, v in vars(res_v).items()}
        self.after = new
        return bad

def jsonable(x):
    if isinstance(x, Obj): return {k: jsonable(v) for k, v in vars(x).items()}
    if isinstance(x, dict): return {k: jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)): return [jsonable(v) for v in x]
    return x

def load_all(module, files):
    import engine, contracts
    importlib.import_module(module)
    P = engine.load_program(files)
    return P, contracts.REG

def worker(cfg):
    import contracts
    contracts_mod = importlib.import_module(cfg['module'])
    import pickle
    P = pickle.load(open(cfg['program'], 'rb'))
    con = contracts.REG[cfg['function']]
    lib = ctypes.CDLL(cfg['so'])
    R = Replayer(P, con, lib, None)
    out = open(cfg['out'], 'a')
    def say(**k): out.write(json.dumps(jsonable(k)) + '\n'); out.flush()
    if cfg.get('input') is not None:
        say(ev='call', args=cfg['input'])
        bad = R.run(cfg['input'])
        say(ev='done', bad=bad, result=R.result if hasattr(R, 'result') else None, after=getattr(R, 'after', None))
        return
    rng = random.Random(cfg['seed'])
    t0 = time.time(); n = 0; tried = 0
    models = cfg.get('models') or [None]
    while time.time() - t0 < cfg['seconds']:
        tried += 1
        names = R.gen(rng, rng.choice(models))
        if names is None or any(isinstance(v, dict) and v is None for v in names.values()): continue
        ptrs = R.pre_ok(names)
        if ptrs is None: continue
        n += 1
        say(ev='call', args=names)
        bad = R.run(names, ptrs)
        if bad:
            say(ev='bad', bad=bad, args=names, result=getattr(R, 'result', None), after=getattr(R, 'after', None)); return
        if n >= cfg.get('maxruns', 10**9): break
    say(ev='end', runs=n, tried=tried)

def asan_env():
    e = dict(os.environ)
    lib = subprocess.run(['gcc', '-print-file-name=libasan.so'], capture_output=True, text=True).stdout.strip()
    e['LD_PRELOAD'] = lib
    e['ASAN_OPTIONS'] = 'detect_leaks=0:malloc_fill_byte=127:max_malloc_fill_size=4096000:abort_on_error=0:exitcode=77:allocator_may_return_null=1:handle_segv=1'
    e['PYTHONMALLOC'] = 'malloc' if False else e.get('PYTHONMALLOC', 'pymalloc')
    return e

def search(cfg, wd, seconds, nproc, seed=1):
    """run workers; returns dict(kind, args, bad...) or None, plus number of runs"""
    procs = []
    for i in range(nproc):
        c = dict(cfg); c['seed'] = seed * 1000 + i; c['seconds'] = seconds
        c['out'] = os.path.join(wd, 'w_%s_%d.jsonl' % (re.sub(r'\W', '_', cfg['function']), i))
        cf = c['out'] + '.cfg'; json.dump(c, open(cf, 'w')); open(c['out'], 'w').close()
        p = subprocess.Popen([sys.executable, os.path.join(HERE, 'replay.py'), '--worker', cf], env=asan_env(),
                             stdout=subprocess.DEVNULL, stderr=open(c['out'] + '.err', 'w'))
        procs.append((p, c))
    t0 = time.time()
    found = None; runs = 0
    live = list(procs)
    while live:
        for p, c in list(live):
            rc = p.poll()
            hang = False
            if rc is None:
                if time.time() - t0 > seconds + 12:
                    p.kill(); p.wait(); hang = True; rc = -99
                else: continue
            live.remove((p, c))
            last = None; lastcall = None; k = 0
            for line in open(c['out']):
                try: r = json.loads(line)
                except ValueError: continue
                last = r
                if r['ev'] == 'call': lastcall = r; k += 1
            runs += k
            if found: continue
            if last and last['ev'] in ('bad',): found = last
            elif last and last['ev'] == 'done' and last.get('bad'): found = dict(last, args=c.get('input'))
            elif last and last['ev'] == 'call' and lastcall is not None:
                err = open(c['out'] + '.err').read()
                if hang: found = {'ev': 'bad', 'bad': ['the call does not terminate within %d s' % 12], 'args': lastcall['args']}
                elif rc != 0 and 'Traceback' not in err[-3000:] or 'AddressSanitizer' in err:
                    m = re.search(r'ERROR: AddressSanitizer: ([^\n]*)', err)
                    fr = re.findall(r'#\d+ 0x\w+ in (\w+) ([^\n]*)', err)
                    fr = [x for x in fr if '/src/' in x[1]][:2]
                    found = {'ev': 'bad', 'bad': ['memory error: %s %s' % (m.group(1) if m else 'exit status %d' % rc, fr)], 'args': lastcall['args']}
        if found:
            for p, c in live: p.kill(); p.wait()
            live = []
        time.sleep(0.05)
    return found, runs

if __name__ == '__main__':
    if sys.argv[1] == '--worker':
        worker(json.load(open(sys.argv[2]))); sys.exit(0)
    # re-run a recorded failing input against the current /repo
    import check
    sys.exit(check.rerun(sys.argv[1]))
