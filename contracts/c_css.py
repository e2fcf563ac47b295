"""Conditional-sum-of-squares objectives: the residual recursion and the value that the optimiser sees"""
from contracts import Contract as C, objspec
from dsl import spec, rec, ufn
RC = {'p': (0, 3), 'q': (0, 3), 'M': (0, 1), 'N': (6, 24), 'd': (0, 1), 'D': (0, 1), 'P': (0, 2), 'Q': (0, 2), 's': (0, 4), 'offset': (0, 6)}
def css(name, ob, struct, flex, inv, off, ncond, nb, w, ar, ma, nma, loop, extra=(), lx=(), same=(), loops={}, cuts={}):
    """off: where the working copy starts; w: the series the recursion runs on; ar/ma: coefficients; nma: moving-average order"""
    objspec(ob, struct, {'x': flex}, inv=inv, replay=RC)
    X = 'params.x[%s' % off
    keep = ['params.%s==old(params.%s)' % (f, f) for f in same] 
    first = ['forall(t,0,params.N, %s2*params.N+t]==old(%s2*params.N+t]))' % (X, X), 'forall(t,0,params.N, %st]==%s)' % (X, w), 'forall(t,0,%s, %sparams.N+t]==0)' % (ncond, X)] + list(extra)
    recu = lambda hi, ar=ar, ma=ma: 'forall(t,%s,%s, %sparams.N+t]==%st]-sum(j,0,%s,%s*%st-1-j])-sum(j,0,min(%s,t-%s),%s*%sparams.N+t-1-j]))' % (ncond, hi, X, X, ar[0], ar[1], X, nma, ncond, ma, X)
    ssq = lambda v, hi: '%s==sum(t,%s,%s,%sparams.N+t]**2)' % (v, ncond, hi, X)
    C(name, 'emle.c', {'b': 'in[%s]' % nb, 'params': 'mobj(%s)' % ob}, [],
      keep + first + [recu('params.N'), ssq('params.ssq', 'params.N'), 'result==0.5*log(params.ssq/(params.N-(%s)))' % ncond, 'params.loglik==result'],
      loops={loop: ['opaque obj ssq', 'iter==i-(%s)' % ncond] + first + [recu('i', (ar[0], 'phi[j]'), 'theta[j]'), ssq('ssq', 'i')] + list(lx), **loops}, cuts=cuts)
css('fcss', 'cssP', 'alik_css_set', 'flex(3*N)', ['p>=0', 'q>=0', 'N>p', 'M==0 or M==1'], '', 'params.p', 'params.p+params.q+params.M',
    '(old(params.x[2*params.N+t])-b[params.p+params.q] if params.M==1 else old(params.x[t]))', ('params.p', 'b[j]'), 'b[params.p+j]', 'params.q', 4, same=['N', 'p', 'q', 'M'])
# (1 + sum theta[k] B^(k+1)) (1 + sum_{j<Q} THETA[j] B^((j+1)s)) = 1 + sum eth(...,Q,s,k) B^(k+1)
rec('eth(th,q,TH,j,s,k)', 'AIAIII', 'R', '(th[k] if k<q else 0) if j<=0 else eth(th,q,TH,j-1,s,k)+(TH[j-1] if j*s==k+1 else 0)+(th[k-j*s]*TH[j-1] if j*s<=k and k<j*s+q else 0)', ranges={'th': 'q', 'TH': 'j'})
Z = 'params.'
EP = lambda j, k: 'ephi(b,params.p,b+(params.p+params.q),%s,params.s,%s)' % (j, k)
ET = lambda j, k: 'eth(b+params.p,params.q,b+(params.p+params.q+params.P),%s,params.s,%s)' % (j, k)
one = lambda b: '(%s if (j+1)*s==k+1 else 0)' % b
ext = lambda a, b: '(%s*%s if (j+1)*s<=k and k<(j+1)*s+i else 0)' % (a, b)
R = 'forall(k,0,%s, %s[k]==%s)'
XL = {4: [R % ('ip', 'phi', EP('j', 'k'))], 5: [R % ('ip', 'phi', EP('j', 'k') + '+' + one('b[p+q+j]') + '-' + ext('b[k-(j+1)*s]', 'b[p+q+j]'))],
      6: [R % ('iq', 'theta', ET('j', 'k'))], 7: [R % ('iq', 'theta', ET('j', 'k') + '+' + one('b[p+q+ps+j]') + '+' + ext('b[p+k-(j+1)*s]', 'b[p+q+ps+j]'))]}
IP = '(params.p+params.s*params.P)'; IQ = '(params.q+params.s*params.Q)'
SI = ['p>=0', 'q>=0', 'P>=0', 'Q>=0', 's>=0', 's>=1 or (P==0 and Q==0)', 'N>p+s*P', 'offset>=0']
COEF = ['forall(k,0,ip, phi[k]==%s)' % EP('params.P', 'k'), 'forall(k,0,iq, theta[k]==%s)' % ET('params.Q', 'k')]
css('fcss_seas', 'csssP', 'alik_css_seas_set', 'flex(offset+3*N)', SI + ['M==0 or M==1'], 'params.offset+', IP, 'params.p+params.q+params.P+params.Q+params.M',
    '(old(params.x[params.offset+2*params.N+t])-b[params.p+params.q+params.P+params.Q] if params.M==1 else old(params.x[params.offset+t]))',
    (IP, EP('params.P', 'j')), ET('params.Q', 'j'), IQ, 10, same=['N', 'p', 'q', 'P', 'Q', 's', 'M', 'offset'], loops=XL,
    cuts={('loop', 8): (COEF, ['phi', 'theta'])})
css('fcssx', 'xcssP', 'xlik_css_set', 'flex(offset+(3+M)*N)', SI + ['M>=0'], 'params.offset+', IP, 'params.p+params.q+params.P+params.Q+params.M',
    '(old(params.x[params.offset+2*params.N+t])-sum(m,0,params.M,params.x[params.offset+3*params.N+m*params.N+t]*b[params.p+params.q+params.P+params.Q+m]) if params.M>0 else old(params.x[params.offset+t]))',
    (IP, EP('params.P', 'j')), ET('params.Q', 'j'), IQ, 11, same=['N', 'p', 'q', 'P', 'Q', 's', 'M', 'offset'], loops=XL,
    extra=['forall(t,0,params.M*params.N, params.x[params.offset+3*params.N+t]==old(params.x[params.offset+3*params.N+t]))'],
    cuts={('loop', 8): (COEF, ['phi', 'theta'])})
# ---- working objects: recorded orders, number of parameters, room for series, residuals, copies and regressors
RR = 'max(p+s*P,1+q+s*Q)'
SIMPLE = ['result.%s==%s' % (f, f) for f in ('p', 'd', 'q', 'N')] + ['result.length==N', 'result.M==(1 if d==0 else 0)', 'result.pq==p+q+result.M', 'result.r==max(p,1+q)', 'result.mean==0',
   'forall(i,0,max(p,1+q), result.phi[i]==0)', 'forall(i,0,max(p,1+q), result.theta[i]==0)', 'length(result.x)>=3*N']
IR = {'p': (0, 6), 'q': (0, 6), 'd': (0, 2), 'D': (0, 2), 'P': (0, 3), 'Q': (0, 3), 's': (0, 12), 'N': (0, 40), 'M': (0, 4)}
# the exact-likelihood objects have structures of their own
objspec('likP', 'alik_set', {'x': 'flex(3*N)'}, inv=[], replay=RC)
objspec('liksP', 'alik_seas_set', {'x': 'flex(offset+3*N)'}, inv=[], replay=RC)
objspec('xlikP', 'xlik_set', {'x': 'flex(offset+(3+M)*N)'}, inv=[], replay=RC)
for nm, o in (('alik_css_init', 'cssP'), ('alik_init', 'likP')):
    C(nm, 'emle.c', {}, ['p>=0', 'q>=0', 'N>=0'], SIMPLE, exits='p>100 or q>=100', ret='obj(%s)' % o, replay=IR)
SEAS = ['result.%s==%s' % (f, f) for f in ('p', 'd', 'q', 's', 'P', 'D', 'Q', 'N')] + ['result.length==N', 'result.r==' + RR, 'result.offset==2*result.r', 'result.mean==0', 'forall(i,0,2*%s, result.x[i]==0)' % RR]
for nm, o in (('alik_css_seas_init', 'csssP'), ('alik_seas_init', 'liksP')):
    C(nm, 'emle.c', {}, ['p>=0', 'q>=0', 'P>=0', 'Q>=0', 's>=0', 'N>=0'], SEAS + ['result.M==(1 if d==0 and D==0 else 0)', 'result.pq==p+q+P+Q+result.M', 'length(result.x)>=result.offset+3*N'], ret='obj(%s)' % o, replay=IR)
for nm, o in (('xlik_css_init', 'xcssP'), ('xlik_init', 'xlikP')):
    C(nm, 'emle.c', {}, ['p>=0', 'q>=0', 'P>=0', 'Q>=0', 's>=0', 'N>=0', 'M>=0'], SEAS + ['result.M==M', 'result.pq==p+q+P+Q+M', 'length(result.x)>=result.offset+(3+M)*N'] + (['result.Nmncond==N'] if nm == 'xlik_css_init' else []), ret='obj(%s)' % o, replay=IR)
