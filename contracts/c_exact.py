"""Exact Gaussian likelihood (AS 154 / AS 197): stationary start, Kalman recursion, the objectives the optimiser sees"""
from contracts import Contract as C, objspec
from dsl import spec, rec, ufn
import refmodels as R
G = {'phi': 'ip', 'theta': 'iq', 'W': 'N'}
# element k (rows of the upper triangle) of the stationary state covariance; standardised residual t, sum of log variances, sum of squares
ufn('lP(ip,iq,phi,theta,k)', 'IIAAI', 'R', ranges=G, py=R.lP)
ufn('lV(ir,iq,theta,k)', 'IIAI', 'R', ranges=G, py=R.lV)
ufn('kR(ip,iq,phi,theta,N,W,t)', 'IIAAIAI', 'R', ranges=G, py=R.kR)
ufn('kSL(ip,iq,phi,theta,N,W)', 'IIAAIA', 'R', ranges=G, py=R.kSL)
ufn('kSS(ip,iq,phi,theta,N,W)', 'IIAAIA', 'R', ranges=G, py=R.kSS)
IR = 'max(ip,iq+1)'; NP = '(max(ip,iq+1)*(max(ip,iq+1)+1)//2)'
B = 'random stationary models of orders up to (5,5), series up to 30'
RS = {'ip': (0, 5), 'iq': (0, 5), 'N': (1, 30), 'phi': 'small', 'theta': 'small', '_where': ['sum(i,0,ip,abs(phi[i]))<0.96']}
STAT = 'forall(k,0,%s, P[k]==(lP(ip,iq,phi,theta,k) if %s>=2 else 1/(1-phi[0]*phi[0])))' % (NP, IR)
C('starma', 'emle.c', {'phi': 'inout[%s]' % IR, 'theta': 'in[iq]', 'A': 'out[%s]' % IR, 'P': 'out[%s]' % NP, 'V': 'out[%s]' % NP}, ['ip>=0', 'iq>=0', IR + '>=2'],
  ['result==0', 'forall(k,0,ip, phi[k]==old(phi[k]))', 'forall(k,ip,%s, phi[k]==0)' % IR, 'forall(k,0,%s, A[k]==0)' % IR, 'forall(k,0,%s, V[k]==lV(%s,iq,theta,k))' % (NP, IR),
   'forall(k,0,%s, P[k]==lP(ip,iq,phi,theta,k))' % NP], bounded=B, bounded_runs=150, replay=RS)
def start(rng, d):
    """the state before the first observation, as starma (or the AR(1) shortcut) leaves it"""
    ip, iq = d['ip'], d['iq']; r = max(ip, iq + 1); n = r * (r + 1) // 2
    ph = d['phi']; ph[ip:] = [0.0] * (len(ph) - ip)
    d['A'] = [0.0] * r; d['nit'] = [0]; d['ssq'] = [0.0]; d['sumlog'] = [0.0]
    try:
        d['P'] = [R.lP(ip, iq, ph, d['theta'], k) for k in range(n)]; d['V'] = [R.lV(r, iq, d['theta'], k) for k in range(n)]
    except Exception: d['P'] = [1.0] * n; d['V'] = [1.0] * n
C('karma', 'emle.c', {'phi': 'in[%s]' % IR, 'theta': 'in[iq]', 'A': 'inout[%s]' % IR, 'P': 'inout[%s]' % NP, 'V': 'in[%s]' % NP, 'W': 'in[N]', 'resid': 'out[N]', 'sumlog': 'inout[1]', 'ssq': 'inout[1]', 'iter': 'out[1]', 'nit': 'inout[1]'},
  ['ip>=0', 'iq>=0', 'N>=1', 'iupd==1', 'nit[0]==0', 'ssq[0]==0', 'sumlog[0]==0', 'forall(k,ip,%s, phi[k]==0)' % IR, 'forall(k,0,%s, A[k]==0)' % IR,
   'forall(k,0,%s, V[k]==(lV(%s,iq,theta,k) if %s>=2 else 1))' % (NP, IR, IR), STAT],
  ['forall(t,0,N, resid[t]==kR(ip,iq,phi,theta,N,W,t))', 'sumlog[0]==kSL(ip,iq,phi,theta,N,W)', 'ssq[0]==kSS(ip,iq,phi,theta,N,W)', 'iter[0]==N', 'nit[0]==N'],
  bounded=B, bounded_runs=150, replay={**RS, 'iupd': (1, 1), '_fix': start})
RX = {'p': (0, 3), 'q': (0, 3), 'M': (0, 2), 'N': (2, 24), 'd': (0, 1), 'D': (0, 1), 'P': (0, 2), 'Q': (0, 2), 's': (0, 4), '_x': 'normal'}
def rx(seas, m1):
    def fix(rng, d):
        p, q, P, Q, s = (d.get(k, 0) for k in ('p', 'q', 'P', 'Q', 's'))
        if seas and (P or Q) and s == 0: d['s'] = s = 2
        if not seas: P = Q = s = 0
        d['r'] = max(p + s * P, q + s * Q + 1)
        if m1: d['M'] = min(d['M'], 1)
        d['offset'] = rng.choice([0, 2 * d['r']])
    return fix
def exact(name, ob, struct, flex, seas, M, nb, w, loops={}, cuts={}, extra=()):
    off = 'params.offset+' if seas else ''
    ip = '(params.p+params.s*params.P)' if seas else 'params.p'; iq = '(params.q+params.s*params.Q)' if seas else 'params.q'
    inv = (['p>=0', 'q>=0', 'P>=0', 'Q>=0', 's>=0', 's>=1 or (P==0 and Q==0)', 's*P>=0', 's*Q>=0', 'N>=1', 'offset>=0', 'r==max(p+s*P,q+s*Q+1)'] if seas else ['p>=0', 'q>=0', 'N>=1', 'r==max(p,q+1)'])
    objspec(ob, struct, {'x': flex}, inv=inv + (['M==0 or M==1'] if M else ['M>=0']), replay={**RX, '_fix': rx(seas, M)})
    X = 'params.x[' + off
    ar = 'fn(k,ephi(b,params.p,b+(params.p+params.q),params.P,params.s,k))' if seas else 'b'
    ma = 'fn(k,eth(b+params.p,params.q,b+(params.p+params.q+params.P),params.Q,params.s,k))' if seas else '(b+params.p)'
    a = '%s,%s,%s,%s,params.N,params.x+%s' % (ip, iq, ar, ma, 'params.offset' if seas else '0')
    keep = ['params.%s==old(params.%s)' % (f, f) for f in ('N', 'p', 'q', 'M', 'r') + (('P', 'Q', 's', 'offset') if seas else ())]
    where = 'sum(i,0,%s,abs(%s))<0.96' % (ip, 'ephi(b,params.p,b+(params.p+params.q),params.P,params.s,i)' if seas else 'b[i]')
    C(name, 'emle.c', {'b': 'in[%s]' % nb, 'params': 'mobj(%s)' % ob}, [],
      keep + ['forall(t,0,params.N, %s2*params.N+t]==old(%s2*params.N+t]))' % (X, X), 'forall(t,0,params.N, %st]==%s)' % (X, w)] + list(extra) +
      ['forall(t,0,params.N, %sparams.N+t]==kR(%s,t))' % (X, a), 'params.ssq==kSS(%s)' % a, 'result==0.5*(kSL(%s)/params.N+log(kSS(%s)/params.N))' % (a, a), 'params.loglik==result'],
      loops=loops, cuts=cuts, replay={'b': 'small', '_where': [where]})
exact('fas154', 'exP', 'alik_set', 'flex(3*N)', False, True, 'params.p+params.q+params.M', '(old(params.x[2*params.N+t])-b[params.p+params.q] if params.M==1 else old(params.x[t]))')
from c_css import XL, COEF
ZP = ['forall(k,ip,ir, phi[k]==0)']
XZ = {k - 1: v + ZP for k, v in XL.items()}
START = ['ir>=1', 'implies(ir==1, np==1)', 'implies(ir==1, V[0]==1)', 'implies(ir==1, P[0]==1/(1-phi[0]*phi[0]))', 'forall(k,0,np, implies(ir>=2, V[k]==lV(ir,iq,theta,k)))', 'forall(k,0,np, implies(ir>=2, P[k]==lP(ip,iq,phi,theta,k)))',
         'forall(k,0,ir, A[k]==0)', 'forall(k,0,ip, phi[k]==%s)' % COEF[0].split('phi[k]==')[1][:-1]] + ZP
CUT = {('loop', 7): (COEF + ZP, ['phi', 'theta']), ('nit', 0): (START, ['V', 'P', 'A', 'phi'])}
NS = 'params.p+params.q+params.P+params.Q'
exact('fas154_seas', 'exsP', 'alik_seas_set', 'flex(offset+3*N)', True, True, NS + '+params.M', '(old(params.x[params.offset+2*params.N+t])-b[%s] if params.M==1 else old(params.x[params.offset+t]))' % NS,
      loops=XZ, cuts=CUT)
exact('fas154x_seas', 'exxP', 'xlik_set', 'flex(offset+(3+M)*N)', True, False, NS + '+params.M',
      '(old(params.x[params.offset+2*params.N+t])-sum(m,0,params.M,params.x[params.offset+3*params.N+m*params.N+t]*b[%s+m]) if params.M>0 else old(params.x[params.offset+t]))' % NS,
      extra=['forall(t,0,params.M*params.N, params.x[params.offset+3*params.N+t]==old(params.x[params.offset+3*params.N+t]))'],
      loops=XZ, cuts=CUT)
