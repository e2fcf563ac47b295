"""Builds the shared library used for replaying: every /repo/src/*.c compiled through a generated wrapper that also
exports accessors for its static functions.  ASan on; malloc/free counted."""
import os, subprocess, glob, re, tempfile, shutil, concurrent.futures as cf

SHIM = r'''
#include <stdlib.h>
static long cdv_live=0;
long cdv_live_get(void){return cdv_live;}
void cdv_live_set(long v){cdv_live=v;}
void *cdv_malloc(size_t n){cdv_live++;return malloc(n);}
void *cdv_calloc(size_t a,size_t b){cdv_live++;return calloc(a,b);}
void *cdv_realloc(void*p,size_t n){if(!p)cdv_live++;return realloc(p,n);}
void cdv_free(void*p){if(p)cdv_live--;free(p);}
'''
PRE = r'''
#include <stdlib.h>
#include <stdio.h>
#include <string.h>
#include <math.h>
void *cdv_malloc(size_t);void *cdv_calloc(size_t,size_t);void *cdv_realloc(void*,size_t);void cdv_free(void*);
#define malloc cdv_malloc
#define calloc cdv_calloc
#define realloc cdv_realloc
#define free cdv_free
'''

def build(repo, statics, out, asan=True, extra=()):
    """statics: basename -> [static function names].  Returns (path of the .so, error text)"""
    d = os.path.join(out, 'rb'); os.makedirs(d, exist_ok=True)
    pre = os.path.join(d, 'pre.h'); open(pre, 'w').write(PRE)
    open(os.path.join(d, 'shim.c'), 'w').write(SHIM)
    flags = ['-O1', '-g', '-w', '-fPIC', '-fno-strict-aliasing', '-I', repo + '/header', '-I', repo + '/src']
    if asan: flags += ['-fsanitize=address', '-fno-omit-frame-pointer']
    jobs = []
    for f in sorted(glob.glob(repo + '/src/*.c')) + list(extra):
        b = os.path.basename(f)
        w = os.path.join(d, 'w_' + b)
        with open(w, 'w') as h:
            h.write('#include "%s"\n#include "%s"\n' % (pre, f))
            for s in statics.get(b, ()):
                h.write('void *cdv_ptr_%s__%s(void){return (void*)%s;}\n' % (re.sub(r'\W', '_', b), s, s))
        jobs.append((w, os.path.join(d, b + '.o')))
    jobs.append((os.path.join(d, 'shim.c'), os.path.join(d, 'shim.o')))
    def one(j):
        return subprocess.run(['gcc'] + flags + ['-c', j[0], '-o', j[1]], capture_output=True, text=True)
    with cf.ThreadPoolExecutor(8) as ex: rs = list(ex.map(one, jobs))
    for r, j in zip(rs, jobs):
        if r.returncode: return None, r.stderr[-2000:]
    so = os.path.join(d, 'libreplay.so')
    r = subprocess.run(['gcc', '-shared', '-o', so] + [j[1] for j in jobs] + (['-fsanitize=address'] if asan else []) + ['-lm'],
                       capture_output=True, text=True)
    if r.returncode: return None, r.stderr[-2000:]
    return so, ''
