"""sorting helpers and interpolation on unsorted abscissae"""
from contracts import Contract as C
from dsl import spec, rec, ufn
PERM = ['forall(i,0,N, 0<=pos[i] and pos[i]<N)', 'forall(i,0,N, forall(k,i+1,N, pos[i]!=pos[k]))']
B = 'random arrays of length up to 40, with repeated values'
C('sort1d', 'matrix.c', {'v': 'in[N]', 'pos': 'out[N]'}, ['N>=0'], PERM + ['forall(i,0,N, forall(k,i+1,N, v[pos[i]]>=v[pos[k]]))', 'forall(j,0,N, exists(i,0,N, pos[i]==j))'],
  bounded=B, bounded_runs=200, replay={'N': (0, 40)})
C('sort1d_ascending', 'matrix.c', {'v': 'in[N]', 'pos': 'out[N]'}, ['N>=0'], PERM + ['forall(i,0,N, forall(k,i+1,N, v[pos[i]]<=v[pos[k]]))', 'forall(j,0,N, exists(i,0,N, pos[i]==j))'],
  bounded=B, bounded_runs=200, replay={'N': (0, 40)})
def zk(x):
    def fix(rng, d):
        if d.get(x) and rng.random() < 0.5: d['z'] = float(rng.choice(d[x]))
    return fix
C('interpolate_linear', 'talg.c', {'xin': 'in[N]', 'yin': 'in[N]'}, ['N>=1', 'forall(a,0,N, forall(b,a+1,N, xin[a]!=xin[b]))'],
  ['forall(a,0,N, implies(z<xin[a] and forall(b,0,N, xin[a]<=xin[b]), result==yin[a]))',
   'forall(a,0,N, implies(z>xin[a] and forall(b,0,N, xin[b]<=xin[a]), result==yin[a]))',
   'forall(a,0,N, implies(z==xin[a], result==yin[a]))',
   'forall(a,0,N, forall(b,0,N, implies(xin[a]<z and z<xin[b] and forall(c,0,N, xin[c]<=xin[a] or xin[c]>=xin[b]), (result-yin[a])*(xin[b]-xin[a])==(yin[b]-yin[a])*(z-xin[a]))))'],
  loops={1: ['0<=i', 'i<=j', 'j<=N-1', 'implies(N>=2,i<j)', 'x[i]<=z', 'z<=x[j]']}, cuts={('out', 2): (['x[i]<z', 'z<x[j]', 'forall(c,0,N, xin[c]<=x[i] or xin[c]>=x[j])'], [])}, replay={'_fix': zk('xin')})
