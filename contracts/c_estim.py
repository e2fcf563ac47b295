"""Estimation as a whole (bounded): what the estimators report belongs to the coefficients they return, and is no worse than their start"""
from contracts import Contract as C, objspec
from dsl import spec, rec, ufn
import refmodels as R
from c_exact import G
ufn('cssE(ip,iq,phi,theta,N,W,t)', 'IIAAIAI', 'R', ranges=G, py=R.cssE)
ufn('cssS(ip,iq,phi,theta,N,W)', 'IIAAIA', 'R', ranges=G, py=R.cssS)
spec('near(a,b)', 'abs(a-b)<=0.002*(abs(b)+0.001)')
B = 'random series of length 24 to 48 (white noise, random walk, oscillating), orders up to 2'
def series(rng, d, n):
    k = rng.choice(['white', 'walk', 'ar', 'ma'])
    e = [rng.gauss(0, 1) for _ in range(n + 1)]; x = []; f = rng.choice([0.5, -0.6, 0.3])
    for t in range(n):
        y = e[t + 1]
        if k == 'walk' and t: y += x[-1]
        if k == 'ar' and t: y += f * x[-1]
        if k == 'ma': y += f * e[t]
        x.append(y)
    m = rng.choice([0.0, 0.0, 5.0]); return [round(v + m, 6) for v in x]
HS = {'N': (24, 48), 'p': (0, 2), 'q': (0, 2), 'd': (0, 2), 's': ('choice', [0, 2, 3, 4]), 'P': (0, 1), 'Q': (0, 1), 'D': (0, 1), 'inp': series, 'optmethod': ('choice', [5, 6, 7]), 'cssml': (0, 1), 'start': (0, 0), 'imean': (0, 1), 'r': (0, 2)}
W0 = 'fn(t,sum(j,0,d+1,dcoef(d,j)*inp[t+d-j])-%s)'
W = W0 % '(wmean[0] if d==0 else 0)'; WM = W0 % '(sum(i,0,N,inp[i])/N if d==0 else 0)'
NP = 'p+q+(1 if d==0 else 0)'
CODE = 'result==0 or result==1 or result==4 or result==15'
a = 'p,q,phi,fn(k,0-theta[k]),N-d,%s' % W
C('css', 'emle.c', {'inp': 'in[N]', 'phi': 'out[p]', 'theta': 'out[q]', 'wmean': 'out[1]', 'var': 'out[1]', 'resid': 'out[N-d]', 'loglik': 'out[1]', 'hess': 'out[(%s)*(%s)]' % (NP, NP)},
  ['p>=0', 'q>=0', 'd>=0', 'N-d>p+q+1', 'p+q+(1 if d==0 else 0)>=1'],
  [CODE, 'implies(d>0, wmean[0]==0)', 'implies(result==1, near(var[0],cssS(%s)/(N-d)))' % a, 'implies(result==1, near(exp(2*loglik[0]),cssS(%s)/(N-d-p)))' % a,
   'implies(result==1, forall(t,0,N-d, abs(resid[t]-cssE(%s,t))<=0.01*sqrt(var[0])))' % a,
   'cssS(%s)<=cssS(p,q,fn(k,0),fn(k,0),N-d,%s)*1.000001' % (a, WM)],
  bounded=B, bounded_runs=100, replay=HS)
# ---- exact likelihood, no seasonal part
CODE2 = CODE + ' or result==10 or result==12'
x = 'p,q,phi,fn(k,0-theta[k]),N-d,%s' % W
C('as154', 'emle.c', {'inp': 'in[N]', 'phi': 'out[p]', 'theta': 'out[q]', 'wmean': 'out[1]', 'var': 'out[1]', 'resid': 'out[N-d]', 'loglik': 'out[1]', 'hess': 'out[(%s)*(%s)]' % (NP, NP)},
  ['p>=0', 'q>=0', 'd>=0', 'N-d>p+q+1', 'p+q>=1'],
  [CODE2, 'implies(d>0, wmean[0]==0)', 'implies(result==1, near(var[0],kSS(%s)/(N-d)))' % x, 'implies(result==1, near(exp(2*loglik[0]-kSL(%s)/(N-d)),kSS(%s)/(N-d)))' % (x, x),
   'implies(result==1, forall(t,0,N-d, abs(resid[t]-kR(%s,t))<=0.01*sqrt(var[0])))' % x,
   'implies(result==1 and cssml==0, kSL({x})/(N-d)+log(kSS({x})/(N-d))<=log(kSS({y})/(N-d))+0.001)'.format(x=x, y='p,q,fn(k,0),fn(k,0),N-d,' + WM)],
  bounded=B, bounded_runs=60, replay=HS)
# ---- seasonal models; the differenced series
DW = 'fn(t,sum(m,0,d+D*s+1,ddc(d,D,s,m)*inp[t+d+D*s-m])-%s)'
SW = DW % '(wmean[0] if d==0 and D==0 else 0)'; SWM = DW % '(sum(i,0,N,inp[i])/N if d==0 and D==0 else 0)'
n = '(N-d-D*s)'
AR = 'fn(k,ephi(phi,p,PHI,P,s,k))'; MA = 'fn(k,eth(fn(m,0-theta[m]),q,fn(m,0-THETA[m]),Q,s,k))'
sa = 'p+s*P,q+s*Q,%s,%s,%s,%s' % (AR, MA, n, SW); s0 = 'p+s*P,q+s*Q,fn(k,0),fn(k,0),%s,%s' % (n, SWM)
NS = 'p+q+P+Q+(1 if d==0 and D==0 else 0)'
SP = {'inp': 'in[N]', 'phi': 'out[p]', 'theta': 'out[q]', 'PHI': 'out[P]', 'THETA': 'out[Q]', 'wmean': 'out[1]', 'var': 'out[1]', 'loglik': 'out[1]', 'hess': 'out[(%s)*(%s)]' % (NS, NS)}
SR = ['p>=0', 'q>=0', 'd>=0', 'P>=0', 'Q>=0', 'D>=0', 's>=0', 's>=1 or (P==0 and Q==0 and D==0)', n + '>p+q+s*P+s*Q+2']
ND = 'implies(d>0 or D>0, wmean[0]==0)'
C('css_seas', 'emle.c', SP, SR + ['p+q+P+Q+(1 if d==0 and D==0 else 0)>=1'],
  [CODE, ND, 'implies(result==1, near(var[0],cssS(%s)/%s))' % (sa, n), 'implies(result==1, near(exp(2*loglik[0]),cssS(%s)/(%s-p-s*P)))' % (sa, n), 'cssS(%s)<=cssS(%s)*1.000001' % (sa, s0)],
  bounded=B, bounded_runs=60, replay=HS)
EX = lambda a, n: ['implies(result==1, near(var[0],kSS(%s)/%s))' % (a, n), 'implies(result==1, near(exp(2*loglik[0]-kSL(%s)/%s),kSS(%s)/%s))' % (a, n, a, n)]
C('as154_seas', 'emle.c', SP, SR + ['p+q+P+Q>=1'],
  [CODE2, ND] + EX(sa, n) + ['implies(result==1 and cssml==0, kSL({x})/{n}+log(kSS({x})/{n})<=log(kSS({y})/{n})+0.001)'.format(x=sa, y=s0, n=n)], bounded=B, bounded_runs=60, replay=HS)
# ---- with regressors
XI = 'inp[t+d+D*s-m]-sum(j,0,r,exog[j]*xreg[j*N+t+d+D*s-m])'
XW = 'fn(t,sum(m,0,d+D*s+1,ddc(d,D,s,m)*(%s))-wmean[0])' % XI
xa = 'p+s*P,q+s*Q,%s,%s,%s,%s' % (AR, MA, n, XW)
NXC = 'p+q+P+Q+r+(1 if d==0 and D==0 and imean==1 else 0)'
XPAR = {**SP, 'xreg': 'in[r*N]', 'exog': 'out[r]', 'phi': 'inout[p]', 'theta': 'inout[q]', 'PHI': 'inout[P]', 'THETA': 'inout[Q]', 'hess': 'out[(%s)*(%s)]' % (NXC, NXC)}
XND = 'implies(d>0 or D>0 or imean!=1, wmean[0]==0)'
C('cssx', 'emle.c', XPAR, SR + ['r>=0', 'p+q+P+Q+r+(1 if d==0 and D==0 and imean==1 else 0)>=1'],
  [CODE + ' or result==7', 'implies(result!=7, %s)' % XND, 'implies(result==1, near(var[0],cssS(%s)/(%s-p-s*P)))' % (xa, n), 'implies(result==1, near(exp(2*loglik[0]),cssS(%s)/(%s-p-s*P)))' % (xa, n)],
  bounded=B, bounded_runs=60, replay=HS)
C('as154x', 'emle.c', {**XPAR, 'resid': 'out[%s]' % n}, SR + ['r>=0', 'p+q+P+Q+r+(1 if d==0 and D==0 and imean==1 else 0)>=1'],
  [CODE2 + ' or result==7', 'implies(result==1, %s)' % XND] + EX(xa, n) + ['implies(result==1, forall(t,0,%s, abs(resid[t]-kR(%s,t))<=0.01*sqrt(var[0])))' % (n, xa)],
  bounded=B, bounded_runs=60, replay=HS)
