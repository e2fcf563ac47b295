"""mkseed.py SEEDFILE...: each seed file is a Python file defining id, prop, needs, breaks, edits=[(file, old, new)], demo (C body).
Builds /verif/seeded/<id>, after confirming in a scratch copy: builds, tests pass, demo passes before and fails after."""
import sys, os, subprocess, shutil, json, tempfile
SEED = '/verif/seeded'
SH = r'''#!/bin/bash
# run with cwd /repo after the build; exit 0 when the property holds on this demonstration
d="$(cd "$(dirname "$0")" && pwd)"
t="$(mktemp -d)"; trap 'rm -rf "$t"' EXIT
gcc -O1 -g FLAGS -w -I header -I src "$d/demo.c" LIB -lm -o "$t/demo" || exit 2
cd "$t" && timeout 60 ./demo
'''
PRE = r'''#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include "ctsa.h"
static int bad = 0;
static void near_(double got, double want, const char *what, int i) {
    if (!(fabs(got - want) <= 1e-8 * (1 + fabs(want)))) { printf("%s[%d]: got %.12g, expected %.12g\n", what, i, got, want); bad = 1; }
}
'''
def sh(c, cwd=None, t=300):
    p = subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t)
    return p.returncode, p.stdout.decode(errors='replace')
def make(s, force=False):
    d = os.path.join(SEED, s['id'])
    if os.path.exists(os.path.join(d, 'patch.diff')) and not force: return True
    w = tempfile.mkdtemp(prefix='seed_'); r = w + '/repo'
    try:
        sh('git -C /repo worktree prune; mkdir %s && cd /repo && git archive HEAD | tar -x -C %s && cd %s && git init -q && git add -A && git commit -qm base' % (r, r, r))
        asan = s.get('asan')
        o = w + '/demo'; os.makedirs(o)
        open(o + '/demo.c', 'w').write(PRE + s['demo'])
        lib = '_build/Bin/RelWithDebInfo/libctsalib.a' if not asan else 'src/*.c'
        open(o + '/demo.sh', 'w').write(SH.replace('LIB', lib).replace('FLAGS', '-fsanitize=address' if asan else '')); os.chmod(o + '/demo.sh', 0o755)
        B = 'cmake -S . -B _build -G Ninja -DCMAKE_BUILD_TYPE=RelWithDebInfo >/dev/null 2>&1; ninja -C _build ctsalib 2>&1 | tail -5'
        def build(): return sh(B, r)
        build(); 
        rc0, out0 = sh('bash %s/demo.sh' % o, r)
        for f, a, b, *nth in s['edits']:
            p = r + '/' + f; t = open(p, newline='').read()
            if '\r\n' in t and '\r\n' not in a: a = a.replace('\n', '\r\n'); b = b.replace('\n', '\r\n')
            if nth:
                parts = t.split(a)
                if len(parts) <= nth[0] + 1: print(s['id'], 'no such occurrence', len(parts)); return False
                open(p, 'w', newline='').write(a.join(parts[:nth[0] + 1]) + b + a.join(parts[nth[0] + 1:])); continue
            if t.count(a) != 1: print(s['id'], 'edit matches', t.count(a), 'times in', f); return False
            open(p, 'w', newline='').write(t.replace(a, b))
        rcp, patch = sh('git diff', r)
        open(o + '/patch.diff', 'w', newline='').write(subprocess.run(['git', 'diff'], cwd=r, stdout=subprocess.PIPE).stdout.decode(errors='surrogateescape'))
        build()
        rc1, out1 = sh('bash %s/demo.sh' % o, r)
        if rc0 != 0: print(s['id'], 'demo fails on clean tree', rc0, out0[-500:]); return False
        if rc1 == 0: print(s['id'], 'demo passes with the patch'); return False
        if rc1 == 2 and not out1.strip().startswith('') : print('build?', out1[-500:])
        json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(o + '/meta.json', 'w'), indent=1)
        # stable tests on /repo with the patch
        rc, out = sh('git apply --check %s/patch.diff' % o, '/repo')
        if rc: print(s['id'], 'patch does not apply', out); return False
        sh('git apply %s/patch.diff' % o, '/repo')
        try:
            rcb, ob = sh('bash /opt/vp/build.sh', None); rct, ot = sh('bash /opt/vp/test.sh %s/t.json' % w, None)
            res = json.load(open(w + '/t.json'))
            rcd, od = sh('bash %s/demo.sh' % o, '/repo')
        finally: sh('git -C /repo checkout -- .'); sh('bash /opt/vp/build.sh')
        if res['failed'] or rcb: print(s['id'], 'tests fail:', res['failed'], rcb); return False
        if rcd == 0: print(s['id'], 'demo passes in /repo with patch'); return False
        shutil.rmtree(d, ignore_errors=True); shutil.copytree(o, d); print(s['id'], 'ok:', out1.strip().split('\n')[0][:150]); return True
    finally: shutil.rmtree(w, ignore_errors=True)
if __name__ == '__main__':
    force = '-f' in sys.argv; ids = [a for a in sys.argv[1:] if not a.startswith('-')]
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    import seeds
    for s in seeds.SEEDS:
        if ids and s['id'] not in ids: continue
        make(s, force)
