"""Seasonal-trend decomposition by loess: running means, local fits, and the additive identity"""
from contracts import Contract as C, objspec
from dsl import spec, rec, ufn
# ---- running mean (array arguments are shifted by one in the code: x[1] is the first sample)
rec('maW(len,x)', 'IA', 'R', 'sum(t,0,len,x[t])/len', ranges={'x': 'len'})
C('stlma_', 'stl.c', {'x': 'in[n[0]]', 'n': 'in[1]', 'len': 'in[1]', 'ave': 'out[n[0]-len[0]+1]'}, ['len[0]>=1', 'n[0]>=len[0]'],
  ['forall(i,0,n[0]-len[0]+1, ave[i]==sum(j,0,len[0],x[i+j])/len[0])', 'result==0'],
  loops={0: ['v==sum(c,0,i__-1,x[c+1])'], 1: ['opaque v ave', 'k==len[0]+j-2', 'm==j-2', 'v==len[0]*maW(len[0],x+(j-1))', 'forall(c,1,j, ave[c]==maW(len[0],x+(c)))']}, replay={'n': (1, 20), 'len': (1, 20)})
# ---- local fit at one point: tricube weights of the samples lo..hi (1-based), times user weights, optional linear correction
rec('loH(n,ln,xs,lo,hi)', 'IIRII', 'R', 'max(xs-lo,hi-xs)+((ln-n)//2 if ln>n else 0)')
spec('cube(x)', 'x*(x*x)')
spec('tric(r,h)', '(1 if r<=0.001*h else cube(1-cube(r/h))) if r<=0.999*h else 0')
RG = {'rw': 'n', 'y': 'n'}; RW = {'rw': 'n'}
rec('loW(n,h,xs,uw,rw,j)', 'IRRIAI', 'R', '(rw[j-1] if uw!=0 else 1)*tric(abs(j-xs),h)', ranges=RW)
rec('loA(n,h,xs,lo,hi,uw,rw)', 'IRRIIIA', 'R', 'sum(j,lo,hi+1,loW(n,h,xs,uw,rw,j))', ranges=RW)
L = 'n,h,xs,lo,hi,uw,rw'; LS = 'IRRIIIA'
rec('loN(%s,j)' % L, LS + 'I', 'R', 'loW(n,h,xs,uw,rw,j)/loA(%s)' % L, ranges=RW)
rec('loMt(%s,j)' % L, LS + 'I', 'R', 'loN(%s,j)*j' % L, ranges=RW)
rec('loM(%s)' % L, LS, 'R', 'sum(j,lo,hi+1,loMt(%s,j))' % L, ranges=RW)
rec('loCt(%s,j)' % L, LS + 'I', 'R', 'loN({0},j)*((j-loM({0}))*(j-loM({0})))'.format(L), ranges=RW)
rec('loC(%s)' % L, LS, 'R', 'sum(j,lo,hi+1,loCt(%s,j))' % L, ranges=RW)
spec('loL(n,h,dg,xs,lo,hi,uw,rw)', 'h>0 and dg>0 and sqrt(loC(%s))>(n-1)*0.001' % L)
rec('loB(%s)' % L, LS, 'R', '(xs-loM({0}))/loC({0})'.format(L), ranges=RW)
rec('loU(n,h,dg,xs,lo,hi,uw,rw,j)', 'IRIRIIIAI', 'R', '(loN({0},j)*(loB({0})*(j-loM({0}))+1) if loL(n,h,dg,xs,lo,hi,uw,rw) else loN({0},j))'.format(L), ranges=RW)
rec('loV(n,h,dg,xs,lo,hi,uw,rw,y)', 'IRIRIIIAA', 'R', 'sum(j,lo,hi+1,loU(n,h,dg,xs,lo,hi,uw,rw,j)*y[j-1])', ranges=RG)
h0 = 'loH(n[0],len[0],xs[0],nleft[0],nright[0])'
A = 'n[0],%s,xs[0],nleft[0],nright[0],userw[0],%s'
a0 = A % ('h__', 'rw+(1)'); a1 = A % (h0, 'rw')
U0 = 'loU(n[0],h__,ideg[0],xs[0],nleft[0],nright[0],userw[0],rw+(1),c)'
W0 = 'loW(n[0],h__,xs[0],userw[0],rw+(1),c)'; N0 = 'loN(%s,c)' % a0
C('stlest_', 'stl.c', {'y': 'in[n[0]]', 'n': 'in[1]', 'len': 'in[1]', 'ideg': 'in[1]', 'xs': 'in[1]', 'ys': 'inout[1]', 'nleft': 'in[1]', 'nright': 'in[1]', 'w': 'inout[n[0]]', 'userw': 'in[1]', 'rw': 'in[n[0]]', 'ok': 'out[1]'},
  ['1<=nleft[0]', 'nleft[0]<=nright[0]', 'nright[0]<=n[0]'],
  ['ok[0]==(0 if loA(%s)<=0 else 1)' % a1, 'ys[0]==(old(ys[0]) if loA(%s)<=0 else loV(n[0],%s,ideg[0],xs[0],nleft[0],nright[0],userw[0],rw,y))' % (a1, h0)],
  cuts={('loop', 0): (['h__==' + h0, 'h9==h__*0.999', 'h1==h__*0.001', 'a==0'], ['h__', 'h9', 'h1', 'a']),
        ('loop', 1): (['a==loA(%s)' % a0], ['a']),
        ('loop', 3): (['a==loM(%s)' % a0, 'b==xs[0]-a'], ['a', 'b']),
        ('loop', 2): (['forall(c,nleft[0],nright[0]+1, w[c]==%s)' % N0], []),
        ('loop', 4): (['forall(c,nleft[0],nright[0]+1, w[c]==%s)' % N0, 'a==loM(%s)' % a0, 'b==loB(%s)' % a0, 'loL(n[0],h__,ideg[0],xs[0],nleft[0],nright[0],userw[0],rw+(1))'], ['a', 'b', 'c__']),
        ('loop', 5): (['forall(c,nleft[0],nright[0]+1, w[c]==%s)' % U0], ['w'])},
  loops={0: ['opaque a w r__ d__1 d__2', 'a==sum(c,nleft[0],j,%s)' % W0, 'forall(c,nleft[0],j, w[c]==%s)' % W0],
         1: ['opaque w', 'forall(c,nleft[0],j, w[c]==%s)' % N0, 'forall(c,j,nright[0]+1, w[c]==%s)' % W0],
         2: ['opaque a', 'a==sum(c,nleft[0],j,loMt(%s,c))' % a0], 3: ['opaque c__ d__1', 'c__==sum(c,nleft[0],j,loCt(%s,c))' % a0],
         4: ['opaque w', 'forall(c,nleft[0],j, w[c]==%s)' % U0, 'forall(c,j,nright[0]+1, w[c]==%s)' % N0],
         5: ['opaque ys', 'ys[0]==sum(c,nleft[0],j,%s*y[c])' % U0]},
  replay={'n': (1, 12), 'len': (1, 14), 'ideg': (0, 1), 'nleft': (1, 6), 'nright': (1, 12), 'userw': (0, 1), 'rw': 'pos', '_where': ['nleft[0]<=nright[0]', 'nright[0]<=n[0]']})
C('stlfts_', 'stl.c', {'x': 'in[n[0]]', 'n': 'in[1]', 'np': 'in[1]', 'trend': 'out[n[0]-np[0]+1]', 'work': 'out[n[0]-2*np[0]+2]'}, ['np[0]>=1', 'n[0]>=2*np[0]+1'],
  ['forall(i,0,n[0]-2*np[0], trend[i]==sum(a,0,3,sum(b,0,np[0],sum(c,0,np[0],x[i+a+b+c])/np[0])/np[0])/3)'], replay={'n': (3, 25), 'np': (1, 8)})
# ---- the smooth: local fits at every njump-th sample and at the last one, straight lines in between
import refmodels as R
ufn('loSm(n,y,uw,rw,ln,dg,jp,i)', 'IAIAIIII', 'R', ranges={'y': 'n', 'rw': 'n'}, py=R.loS_)
ufn('cycSm(n,y,uw,rw,np,ns,dg,jp,i)', 'IAIAIIIII', 'R', ranges={'y': 'n', 'rw': 'n'}, py=R.cycS)
ufn('robWt(n,y,fit,i)', 'IAAI', 'R', ranges={'y': 'n', 'fit': 'n'}, py=R.robW)
SA = 'np,ns,nt,nl,d1,d2,d3,j1,j2,j3,ni,no'
for nm, f in (('stlSe', R.stlS), ('stlTr', R.stlT), ('stlRw', R.stlR)):
    ufn('%s(n,y,%s,i)' % (nm, SA), 'IA' + 'I' * 13, 'R', ranges={'y': 'n'}, py=f)
B = 'random series of length 1 to 30 (noise, periodic, outliers), spans 1 to 33, degrees 0 and 1, jumps 1 to 5'
I1 = lambda *k: {x: 'in[1]' for x in k}
def ser(rng, d, n):
    k = rng.choice(['n', 'p', 'o', 'c']); f = rng.randint(2, 6)
    x = [round(rng.gauss(0, 1) + (3 * ((i % f) - f / 2) if k != 'n' else 0) + 0.1 * i, 4) for i in range(n)]
    if k == 'o' and n: x[rng.randrange(n)] += 50
    if k == 'c' and 'ideg' in d: x = [x[i % f] for i in range(n)]
    return x
C('stless_', 'stl.c', {'y': 'in[n[0]]', **I1('n', 'len', 'ideg', 'njump', 'userw'), 'rw': 'in[n[0]]', 'ys': 'out[n[0]]', 'res': 'out[n[0]]'},
  ['n[0]>=1', 'len[0]>=1', 'njump[0]>=1'], ['forall(i,0,n[0], ys[i]==loSm(n[0],y,userw[0],rw,len[0],ideg[0],njump[0],i))'],
  bounded=B, bounded_runs=300, replay={'n': (1, 24), 'len': (1, 30), 'ideg': (0, 1), 'njump': (1, 5), 'userw': (0, 1), 'rw': lambda rng, d, n: [rng.choice([0.0, 1.0, 0.5, rng.random()]) for _ in range(n)], 'y': ser})
C('stlss_', 'stl.c', {'y': 'in[n[0]]', **I1('n', 'np', 'ns', 'isdeg', 'nsjump', 'userw'), 'rw': 'in[n[0]]', 'season': 'out[n[0]+2*np[0]]', 'work1': 'out[n[0]]', 'work2': 'out[n[0]+2]', 'work3': 'out[n[0]]', 'work4': 'out[n[0]]'},
  ['np[0]>=1', 'n[0]>=np[0]', 'ns[0]>=1', 'nsjump[0]>=1'], ['forall(i,0,n[0]+2*np[0], season[i]==cycSm(n[0],y,userw[0],rw,np[0],ns[0],isdeg[0],nsjump[0],i))'],
  bounded=B, bounded_runs=200, replay={'n': (2, 30), 'np': (1, 7), 'ns': (1, 15), 'isdeg': (0, 1), 'nsjump': (1, 3), 'userw': (0, 1), 'rw': lambda rng, d, n: [rng.choice([0.0, 1.0, 0.5, rng.random()]) for _ in range(n)], 'y': ser, '_where': ['n[0]>=np[0]']})
# partial sorting: the requested order statistics are in their places
C('psort_', 'stl.c', {'a': 'inout[n]', 'ind': 'in[ni]'}, ['n>=0', 'ni>=0', 'forall(k,0,ni, 1<=ind[k])', 'forall(k,0,ni, ind[k]<=n)', 'forall(k,0,ni, forall(m,k,ni, ind[k]<=ind[m]))'],
  ['forall(k,0,ni, forall(i,0,ind[k]-1, a[i]<=a[ind[k]-1]))', 'forall(k,0,ni, forall(i,ind[k],n, a[ind[k]-1]<=a[i]))', 'forall(v,0,n, sum(i,0,n,1 if a[i]==old(a[v]) else 0)==sum(i,0,n,1 if old(a[i])==old(a[v]) else 0))'],
  bounded='random arrays of up to 40 elements with ties, one to three requested order statistics', bounded_runs=400,
  replay={'n': (0, 40), 'ni': (0, 3), 'a': lambda rng, d, n: [rng.choice([0.0, 1.5, round(rng.gauss(0, 3), 3)]) if rng.random() < 0.5 else rng.gauss(0, 5) for _ in range(n)], 'ind': lambda rng, d, n: sorted(rng.randint(1, max(1, d['n'])) for _ in range(n))})
C('stlrwt_', 'stl.c', {'y': 'in[n[0]]', 'n': 'in[1]', 'fit': 'in[n[0]]', 'rw': 'out[n[0]]'}, ['n[0]>=1'], ['forall(i,0,n[0], rw[i]==robWt(n[0],y,fit,i))'],
  bounded=B, bounded_runs=300, replay={'n': (1, 40), 'y': ser})
S_ = 'n[0],y,np[0],ns[0],nt[0],nl[0],isdeg[0],itdeg[0],ildeg[0],nsjump[0],ntjump[0],nljump[0],ni[0],no[0],i'
C('stl_', 'stl.c', {'y': 'in[n[0]]', **I1('n', 'np', 'ns', 'nt', 'nl', 'isdeg', 'itdeg', 'ildeg', 'nsjump', 'ntjump', 'nljump', 'ni', 'no'), 'rw': 'out[n[0]]', 'season': 'out[n[0]]', 'trend': 'out[n[0]]', 'work': 'out[(n[0]+2*np[0])*5]'},
  ['np[0]>=2', 'n[0]>=2*np[0]', 'nsjump[0]>=1', 'ntjump[0]>=1', 'nljump[0]>=1', 'ni[0]>=1', 'no[0]>=0'],
  ['forall(i,0,n[0], season[i]==stlSe(%s))' % S_, 'forall(i,0,n[0], trend[i]==stlTr(%s))' % S_, 'forall(i,0,n[0], rw[i]==stlRw(%s))' % S_],
  bounded='random series of length 4 to 40 (noise, periodic, outliers), all spans, degrees, jumps, up to 3 inner and 3 robustness iterations', bounded_runs=200,
  replay={'n': (4, 40), 'np': (2, 6), 'ns': (1, 21), 'nt': (1, 21), 'nl': (1, 13), 'isdeg': (0, 1), 'itdeg': (0, 1), 'ildeg': (0, 1), 'nsjump': (1, 3), 'ntjump': (1, 3), 'nljump': (1, 3), 'ni': (1, 3), 'no': (0, 3), 'y': ser, '_where': ['n[0]>=2*np[0]', 'no[0]==0 or (nt[0]>=6 and ns[0]>=6 and n[0]>=3*np[0]+2)']})
# ---- the interface: default windows, degrees and jumps; a periodic window replaces the seasonal part by the means of its cycle
rec('cycN(N,f,k)', 'III', 'I', 'sum(j,0,N,1 if j%f==k else 0)')
rec('cycT(N,x,f,k)', 'IAII', 'R', 'sum(j,0,N,x[j] if j%f==k else 0)', ranges={'x': 'N'})
C('cycle', 'seastest.c', {'cyc': 'out[N]'}, ['N>=0', 'f>=1'], ['forall(i,0,N, cyc[i]==i%f)'], static=True)
C('applySeasonalMean', 'seastest.c', {'x': 'inout[N]', 'cycle': 'in[N]'}, ['f>=1', 'N>=f', 'forall(i,0,N, cycle[i]==i%f)'],
  ['forall(i,0,N, x[i]==cycT(N,old(x),f,i%f)/cycN(N,f,i%f))'], static=True,
  loops={0: ['forall(k,0,f, cval[k]==sum(j,0,i,1 if j%f==k else 0))', 'forall(k,0,f, cval[k]>=0)', 'forall(k,0,f, implies(k<i, cval[k]>=1))', 'forall(k,0,f, seasonal_means[k]==sum(j,0,i,x[j] if j%f==k else 0))'],
         1: ['forall(k,0,i, seasonal_means[k]==cycT(N,x,f,k)/cycN(N,f,k))', 'forall(k,i,f, seasonal_means[k]==cycT(N,x,f,k))'],
         2: ['forall(k,0,i, x[k]==cycT(N,old(x),f,k%f)/cycN(N,f,k%f))', 'forall(k,i,N, x[k]==old(x[k]))']},
  replay={'N': (1, 30), 'f': (1, 8), '_where': ['N>=f'], 'cycle': lambda rng, d, n: [i % d['f'] for i in range(n)]})
spec('nOdd(w)', 'w+1 if w%2==0 else w')
spec('sTw(f,sw)', 'nOdd(ceil(1.5*f/(1-1.5/sw)))')
spec('cj(w)', 'ceil(w/10.0)')
OPT = ('s_degree', 't_window', 't_degree', 'l_window', 'l_degree', 's_jump', 't_jump', 'l_jump', 'robust', 'inner', 'outer')
O = lambda k, d: '(%s[0] if not isnull(%s) else %s)' % (k, k, d)
TD = O('t_degree', '1')
def stlargs(sw):
    tw, lw = O('t_window', 'sTw(f,%s)' % sw), O('l_window', 'nOdd(f)')
    rb = O('robust', '0')
    return 'N,x,f,%s' % ','.join([sw, tw, lw, O('s_degree', '0'), TD, O('l_degree', TD), O('s_jump', 'cj(%s)' % sw), O('t_jump', 'cj(%s)' % tw), O('l_jump', 'cj(%s)' % lw),
                                  O('inner', '(1 if %s!=0 else 2)' % rb), O('outer', '(15 if %s!=0 else 0)' % rb)]) + ',i'
PO = {k: 'in[1]?' for k in OPT}; PS = {'x': 'in[N]', **PO, 'seasonal': 'out[N]', 'trend': 'out[N]', 'remainder': 'out[N]'}
W0 = ['N>=1', 'N<=10000000', 'f<=N'] + ['implies(not isnull(%s), %s[0]>=%d)' % (k, k, v) for k, v in (('t_window', 1), ('l_window', 1), ('s_jump', 1), ('t_jump', 1), ('l_jump', 1), ('inner', 1), ('outer', 0))]
DX = 'f<2 or N<2*f' + ''.join(' or (not isnull(%s) and (%s[0]<0 or %s[0]>1))' % (k, k, k) for k in ('s_degree', 't_degree', 'l_degree'))
RP = {'N': (4, 40), 'f': (2, 6), 's_window': (2, 21), 't_window': (6, 21), 'l_window': (1, 13), 's_jump': (1, 3), 't_jump': (1, 3), 'l_jump': (1, 3), 'robust': (0, 1), 'inner': (1, 3), 'outer': (0, 3), 's_degree': (0, 1), 't_degree': (0, 1), 'l_degree': (0, 1), 'x': ser, '_where': ['N>=3*f+2']}
C('nextOdd', 'seastest.c', {}, ['x<=1000000000'], ['result==nOdd(x)'], static=True)
C('degCheck', 'seastest.c', {}, [], ['result==deg'], exits='deg<0 or deg>1', static=True)
C('stl', 'seastest.c', {}, [], [], inline=True)
C('cl_stl', 'cl_stl.c', {'s_window': 'in[1]', **PS}, W0 + ['s_window[0]>=2', 's_window[0]<=10000000'],
  ['forall(i,0,N, seasonal[i]==stlSe(%s))' % stlargs('s_window[0]'), 'forall(i,0,N, trend[i]==stlTr(%s))' % stlargs('s_window[0]'), 'forall(i,0,N, seasonal[i]+trend[i]+remainder[i]==x[i])'],
  exits=DX, inlines=['stl'], loops={('stl', 0): ['forall(k,0,i, remainder[k]==x[k]-seasonal[k]-trend[k])']}, replay=RP)
sp = stlargs('(10*N+1)')
C('cl_stl_period', 'cl_stl.c', PS, W0,
  ['forall(i,0,N, trend[i]==stlTr(%s))' % sp, 'forall(i,0,N, seasonal[i]==cycT(N,fn(k,stlSe(%s)),f,i%%f)/cycN(N,f,i%%f))' % sp.replace(',i', ',k'), 'forall(i,0,N, seasonal[i]+trend[i]+remainder[i]==x[i])'],
  exits=DX, inlines=['stl'], loops={('stl', 0): ['forall(k,0,i, remainder[k]==x[k]-seasonal[k]-trend[k])']}, replay=RP)
# ---- super smoother (trend of a series without seasonal periods)
ufn('supSm(n,x,y,uw,w,per,span,alpha,i)', 'IAAIAIRRI', 'R', ranges={'x': 'n', 'y': 'n', 'w': 'n'}, py=R.supS)
def asc(rng, d, n):
    x = [rng.random()]
    while len(x) < n: x.append(x[-1] if rng.random() < 0.2 and (len(x) < 2 or x[-1] > x[-2]) else x[-1] + 0.1 + rng.random())
    m = x[-1] + 1e-9; return [v / m for v in x] if rng.random() < 0.7 else x
C('supsmu', 'talg.c', {'x': 'in[N]', 'y': 'in[N]', 'w': 'in[N]?', 'oup': 'out[N]'}, ['N>=4', 'forall(i,0,N-1, x[i]<=x[i+1])'],
  ['forall(i,0,N, oup[i]==(supSm(N,x,y,0,y,periodic,span,alpha,i) if isnull(w) else supSm(N,x,y,1,w,periodic,span,alpha,i)))'], exits='(periodic!=1 and periodic!=2) or span<0 or span>1',
  bounded='random series of 4 to 60 points with ties, spans 0 to 1, weights', bounded_runs=150, replay={'N': (4, 60), 'x': asc, 'w': 'pos', 'periodic': (1, 2), 'span': ('choice', [0.0, 0.0, 0.1, 0.3, 0.77, 1.0]), 'alpha': ('choice', [-1.0, 0.0, 3.0, 10.0]), 'y': ser,
    '_where': ['periodic==1 or (N>=12 and span<0.8)']})
# ---- seasonal trend decomposition of the (possibly transformed) series; without a period the trend is the super smoother
def mods(y):
    tw, lw = 'sTw(f,{0})', 'nOdd(f)'
    sw = '(s_window[0] if not isnull(s_window) else 13)'
    a = 'N,%s,f,%s,%s,%s,0,1,1,cj(%s),cj(%s),cj(%s),2,0,i' % (y, sw, tw.format(sw), lw, sw, tw.format(sw), lw)
    return ['forall(i,0,N, seasonal[i]==(stlSe(%s) if f>1 else 0))' % a,
            'forall(i,0,N, trend[i]==(stlTr(%s) if f>1 else supSm(N,fn(k,k),%s,0,%s,1,0,-1,i)))' % (a, y, y)]
C('modstl', 'seastest.c', {'x': 'in[N]', 's_window': 'in[1]?', 'lambda': 'in[1]?', 'seasonal': 'out[N]', 'trend': 'out[N]', 'remainder': 'out[N]'},
  ['N>=4', 'N<=10000000', 'f<=N', 'implies(not isnull(s_window), s_window[0]>=2)', 'implies(not isnull(s_window), s_window[0]<=10000000)', 'implies(not isnull(lambda), forall(i,0,N, x[i]!=0))'],
  ['implies(isnull(lambda), %s)' % e for e in mods('x')] + ['implies(not isnull(lambda) and (lambda[0]==0 or abs(lambda[0])>=1e-15), %s)' % e for e in mods('fn(k,bc(x[k],lambda[0]))')] +
  ['implies(isnull(lambda), forall(i,0,N, seasonal[i]+trend[i]+remainder[i]==x[i]))', 'implies(not isnull(lambda) and (lambda[0]==0 or abs(lambda[0])>=1e-15), forall(i,0,N, seasonal[i]+trend[i]+remainder[i]==bc(x[i],lambda[0])))'],
  exits='(f>1 and N<2*f) or (not isnull(lambda) and (forall(i,0,N-1, x[i+1]==x[i]) or exists(i,0,N, x[i]<0)))', inlines=['stl'],
  loops={('stl', 0): ['forall(k,0,i, remainder[k]==x[k]-seasonal[k]-trend[k])'], 0: ['forall(k,0,i, t[k]==k)'], 1: ['forall(k,0,i, seasonal[k]==0)', 'forall(k,0,i, remainder[k]==y[k]-trend[k])']},
  replay={'N': (6, 40), 'f': (0, 6), 's_window': (2, 21), 'lambda': lambda rng, d, n: [rng.choice([0.0, 0.5, 1.0, -0.5])], 'x': lambda rng, d, n: [abs(v) + 0.1 for v in ser(rng, d, n)]})
# ---- several seasonal periods: each period below half the series length is removed in turn, the last trend is kept
for nm, f in (('msS', R.msS), ('msT', R.msT)):
    ufn('%s(N,x,sw,it,nf,f,j,i)' % nm, 'IAIIIAII', 'R', ranges={'x': 'N', 'f': 'nf'}, py=f)
def msp(y):
    sw, it = '(s_window[0] if not isnull(s_window) else 13)', '(iterate[0] if not isnull(iterate) else 2)'
    a = 'N,%s,%s,%s,old(Nseas[0]),old(f)' % (y, sw, it)
    return ['forall(i,0,N, trend[i]==msT(%s,0,i))' % a, 'implies(Nseas[0]>=1, forall(i,0,N, s1[i]==msS(%s,0,i)))' % a, 'implies(Nseas[0]>=2, forall(i,0,N, s2[i]==msS(%s,1,i)))' % a,
            'forall(i,0,N, (s1[i] if Nseas[0]>=1 else 0)+(s2[i] if Nseas[0]>=2 else 0)+trend[i]+remainder[i]==%s)' % y.replace('fn(k,bc(x[k],lambda[0]))', 'bc(x[i],lambda[0])').replace('x', 'x[i]' if y == 'x' else 'x')]
C('cl_mstl2', 'cl_stl.c', {'x': 'in[N]', 'f': 'inout[Nseas[0]]', 'Nseas': 'inout[1]', 's_window': 'in[1]?', 'lambda': 'in[1]?', 'iterate': 'in[1]?', 's1': 'out[N]', 's2': 'out[N]', 'trend': 'out[N]', 'remainder': 'out[N]'},
  ['N>=6', '0<=Nseas[0] and Nseas[0]<=2', 'forall(i,0,Nseas[0], f[i]>=2)', 'implies(not isnull(s_window), s_window[0]>=2)', 'implies(not isnull(iterate), iterate[0]>=1)', 'implies(not isnull(lambda), forall(i,0,N, x[i]>0))', 'implies(not isnull(lambda), not forall(i,0,N-1, x[i+1]==x[i]))'],
  ['Nseas[0]==sum(i,0,old(Nseas[0]),1 if old(f[i])<N//2 else 0)'] + ['implies(isnull(lambda), %s)' % e for e in msp('x')] + ['implies(not isnull(lambda), %s)' % e for e in msp('fn(k,bc(x[k],lambda[0]))')],
  bounded='random series of length 6 to 60, up to two periods, windows, transforms and up to 3 rounds', bounded_runs=150,
  replay={'N': (6, 60), 'Nseas': (0, 2), 'f': lambda rng, d, n: [rng.randint(2, 12) for _ in range(n)], 's_window': (2, 21), 'iterate': (1, 3), 'lambda': lambda rng, d, n: [rng.choice([0.0, 0.5, 1.0, -0.5])], 'x': lambda rng, d, n: [abs(v) + 0.1 for v in ser(rng, d, n)]})
ufn('seaStr(N,x,nf,f,j)', 'IAIAI', 'R', ranges={'x': 'N', 'f': 'nf'}, py=R.seaStr)
C('SHtest', 'seastest.c', {'x': 'in[N]', 'f': 'inout[Nseas]', 'season': 'out[Nseas]'}, ['N>=6', '0<=Nseas', 'forall(i,0,Nseas, f[i]>=2)'],
  ['forall(j,0,Nseas, 0<=season[j] and season[j]<=1)', 'implies(forall(i,0,Nseas, old(f[i])<N//2), forall(j,0,Nseas, season[j]==seaStr(N,x,Nseas,old(f),j)))', 'forall(j,sum(i,0,Nseas,1 if old(f[i])<N//2 else 0),Nseas, season[j]==0)'],
  bounded='random series of length 6 to 60, up to three periods', bounded_runs=100,
  replay={'N': (10, 60), 'Nseas': (0, 3), 'f': lambda rng, d, n: [rng.randint(2, max(2, d['N'] // 2 - 1) if rng.random() < .8 else d['N']) for _ in range(n)], 'x': ser})
# ---- lagged copies of a series, one lag per row
C('genLags', 'seastest.c', {'y': 'in[N]', 'rows': 'out[1]', 'cols': 'out[1]'}, ['N>=1', 'N<=10000', 'mlags<=10000', 'mlags<=N'],
  ['rows[0]==(1 if mlags<=1 else mlags)', 'cols[0]==(N if mlags<=1 else N-mlags+1)', 'implies(mlags>=1, forall(i,0,mlags, forall(j,0,N-mlags+1, result[i*(N-mlags+1)+j]==y[mlags-1-i+j])))', 'implies(mlags<=0, forall(j,0,N, result[j]==0))'],
  ret='new[N if mlags<=1 else (N-mlags+1)*mlags]', loops={0: ['opaque out', 'forall(k,0,i, forall(j,0,N-mlags+1, out[k*(N-mlags+1)+j]==y[mlags-1-k+j]))']}, replay={'N': (1, 20), 'mlags': (-1, 8)})
