"""Running an estimation on a model object: what is stored in the object is what the estimator reported"""
from contracts import Contract as C, objspec
import c_estim as E, c_forecast as F
import re, random
import contracts
LLC = '(0-2*obj.loglik/obj.Nused-1-log(2*3.14159))'
def tr(t, names):
    t = t.replace('wmean[0]', 'obj.mean').replace('var[0]', 'obj.var').replace('2*loglik[0]', LLC).replace('result', 'obj.retval').replace('resid[', 'obj.res[')
    return re.sub(r'(?<![\w.])(%s)(?![\w(])' % '|'.join(names), r'obj.\1', t)
def ens(fn, names, cond, subst=()):
    out = []
    for _, t in contracts.REG[fn].ensures:
        t = tr(t, names)
        for a, b in subst: t = t.replace(a, b)
        out.append('implies(%s, %s)' % (cond, t))
    return out
def keep(fields): return ['obj.%s==old(obj.%s)' % (f, f) for f in fields.split()]
def post(M):
    def g(rng, d): d['M'] = M(d); d['Nused'] = d['N'] - d['d'] - d.get('s', 0) * d.get('D', 0)
    return g
RE = {**{k: E.HS[k] for k in ('N', 'p', 'q', 'd', 's', 'P', 'Q', 'D', 'optmethod', 'cssml', 'start', 'imean', 'r')}, 'method': (0, 1)}
AIC = 'obj.aic==0-2*obj.loglik+2*(%s+obj.M)+2'
IN = {'inp': lambda rng, names, n: E.series(rng, names, n)}
# ---- no seasonal part
objspec('arimaE', 'arima_set', contracts.OBJ['arimaP']['fields'], inv=contracts.OBJ['arimaP']['inv'] + ['M==(1 if d==0 else 0)', 'p+q>=1', 'N-d>p+q+1', 'Nused==N-d', 'Nused>=1', 'method==0 or method==1'],
  replay={**RE, '_fix': post(lambda d: int(d['d'] == 0))})
NA = ['p', 'q', 'd', 'N', 'phi', 'theta', 'cssml']
C('arima_exec', 'ctsa.c', {'obj': 'mobj(arimaE)', 'inp': 'in[obj.N]'}, [],
  keep('N Nused method optmethod p d q M ncoeff lvcov cssml') + ens('as154', NA, 'obj.method==0') + ens('css', NA, 'obj.method==1') + ['implies(obj.method==0, %s)' % (AIC % 'obj.p+obj.q')],
  split=['obj.method==0'], replay=IN)
# ---- seasonal models
objspec('sarimaE', 'sarima_set', contracts.OBJ['sarimaP']['fields'], inv=contracts.OBJ['sarimaP']['inv'] + ['M==(1 if d==0 and D==0 else 0)', 'p+q+P+Q>=1', 'N-d-D*s>p+q+s*P+s*Q+2', 'Nused==N-d-D*s', 'Nused>=1', 'method==0 or method==1'],
  replay={**RE, '_fix': post(lambda d: int(d['d'] == 0 and d['D'] == 0))})
NS = ['p', 'q', 'd', 'N', 'phi', 'theta', 's', 'P', 'Q', 'D', 'PHI', 'THETA', 'cssml']
PQ = 'obj.p+obj.q+obj.P+obj.Q'
C('sarima_exec', 'ctsa.c', {'obj': 'mobj(sarimaE)', 'inp': 'in[obj.N]'}, [],
  keep('N Nused method optmethod p d q s P D Q M ncoeff lvcov cssml') + ens('as154_seas', NS, 'obj.method==0') + ens('css_seas', NS, 'obj.method==1') + ['implies(obj.method==0, %s)' % (AIC % PQ)],
  split=['obj.method==0'], replay=IN)
# ---- with regressors
objspec('sarimaxE', 'sarimax_set', contracts.OBJ['sarimaxP']['fields'], inv=contracts.OBJ['sarimaxP']['inv'] + ['M==r+(1 if d==0 and D==0 and imean==1 else 0)', 'p+q+P+Q+r+(1 if d==0 and D==0 and imean==1 else 0)>=1', 'N-d-D*s>p+q+s*P+s*Q+2', 'Nused==N-d-D*s', 'Nused>=1'],
  replay={**RE, 'method': (0, 2), '_fix': post(lambda d: d['r'] + int(d['d'] == 0 and d['D'] == 0 and d['imean'] == 1))})
NX = NS + ['exog', 'imean', 'r']
C('sarimax_exec', 'ctsa.c', {'obj': 'mobj(sarimaxE)', 'inp': 'in[obj.N]', 'xreg': 'in[obj.r*obj.N]'}, [],
  keep('N Nused method optmethod p d q s P D Q r imean start M ncoeff lvcov') + ens('as154x', NX, '(obj.method==0 or obj.method==1)') + ens('cssx', NX, 'obj.method==2') + ['implies(obj.method<=1, %s)' % (AIC % PQ)],
  split=['obj.method==0', 'obj.method==1'], exits='obj.method<0 or obj.method>2', replay=IN)
