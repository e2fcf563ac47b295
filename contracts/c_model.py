"""Model objects: creation, settings, parameter access, release; what estimation stores in them"""
from contracts import Contract as C, objspec
from dsl import spec, rec, ufn
from c_forecast import ORD
IR = {'p': (0, 4), 'q': (0, 4), 'd': (0, 2), 'D': (0, 2), 'P': (0, 3), 'Q': (0, 3), 's': (0, 12), 'N': (30, 60), 'M': (0, 4), 'r': (0, 3), 'imean': (0, 1), 'method': (0, 2)}
objspec('arimaN', 'arima_set', {'params': 'flex(p+q+N-d+(p+q+M)*(p+q+M))'}, inv=[], replay={})
DEF = ['result.retval==0', 'result.method==0', 'result.optmethod==5', 'result.mean==0', 'result.var==1']
def at(f, k): return 'same(result.%s,result.params+(%s))' % (f, k)
def init(name, params, req, M, NC, n, fields, lay, extra, exits, ret, room):
    C(name, 'ctsa.c', params, req, ['result.%s==%s' % (f, f) for f in fields] + ['result.M==%s' % M, 'result.Nused==%s' % n, 'result.ncoeff==%s' % NC, 'result.lvcov==(%s)*(%s)' % (NC, NC)] + DEF + extra +
      [at(f, k) for f, k in lay] + ['length(result.params)>=%s' % room], exits=exits, ret='obj(%s)' % ret, replay=IR)
M0 = '(1 if d==0 else 0)'; M1 = '(1 if d==0 and D==0 else 0)'
init('arima_init', {}, ['N>=d'], M0, 'p+q+' + M0, 'N-d', ['p', 'd', 'q', 'N'], [('phi', '0'), ('theta', 'p'), ('res', 'p+q'), ('vcov', 'p+q+N-d')],
     ['result.cssml==1', 'forall(i,0,p+q, result.params[i]==0)'], 'p<0 or d<0 or q<0 or N<=0', 'arimaN', 'p+q+N-d+result.lvcov')
NEG = 'p<0 or d<0 or q<0 or N<=0 or P<0 or D<0 or Q<0'
objspec('sarimaN', 'sarima_set', {'params': 'flex(p+q+P+Q+N-d-s*D+(p+q+P+Q+M)*(p+q+P+Q+M))'}, inv=[], replay={})
init('sarima_init', {}, ['N>=d+s*D'], M1, 'p+q+P+Q+' + M1, 'N-d-s*D', ['p', 'd', 'q', 's', 'P', 'D', 'Q', 'N'], [('phi', '0'), ('theta', 'p'), ('PHI', 'p+q'), ('THETA', 'p+q+P'), ('res', 'p+q+P+Q'), ('vcov', 'p+q+P+Q+N-d-s*D')],
     ['result.cssml==1', 'forall(i,0,p+q+P+Q, result.params[i]==0)'], NEG + ' or s<0', 'sarimaN', 'p+q+P+Q+N-d-s*D+result.lvcov')
# with regressors: the period is dropped when there is no seasonal part
S = '(0 if P+D+Q==0 else s)'; MX = '(r if d+D>0 or imean==0 else r+1)'; NX = '(N-d-%s*D)' % S
objspec('sarimaxN', 'sarimax_set', {'params': 'flex(p+q+P+Q+M+N-d-s*D+(p+q+P+Q+M)*(p+q+P+Q+M))'}, inv=[], replay={})
init('sarimax_init', {}, ['N>=d+s*D', 'r>=0', 's>=0'], MX, 'p+q+P+Q+' + MX, NX, ['p', 'd', 'q', 'P', 'D', 'Q', 'N', 'r', 'imean'],
     [('phi', '0'), ('theta', 'p'), ('PHI', 'p+q'), ('THETA', 'p+q+P'), ('exog', 'p+q+P+Q'), ('res', 'p+q+P+Q+' + MX), ('vcov', 'p+q+P+Q+%s+%s' % (MX, NX))],
     ['result.s==' + S, 'result.start==0', 'forall(i,0,p+q+P+Q+%s+%s+(p+q+P+Q+%s)*(p+q+P+Q+%s), result.params[i]==0)' % (MX, NX, MX, MX)], NEG + ' or imean<0 or imean>1', 'sarimaxN', 'p+q+P+Q+%s+%s+result.lvcov' % (MX, NX))
objspec('arN', 'ar_set', {'params': 'flex(ordermax+N)'}, inv=[], replay={})
C('ar_init', 'ctsa.c', {}, [], ['result.p==result.ordermax', 'result.order==result.ordermax', 'result.ordermax<=N-1', 'implies(method==2, result.ordermax<=12)', 'result.ordermax<=10*log(N)', 'implies(method!=2, result.ordermax==N-1 or result.ordermax>10*log(N)-1)',
   'result.N==N', 'result.method==method', 'result.retval==0', 'result.optmethod==5', 'result.mean==0', 'result.var==1', 'forall(i,0,result.ordermax, result.params[i]==0)',
   at('phi', '0'), at('res', 'result.ordermax'), 'length(result.params)>=result.ordermax+N'], exits='N<=0', ret='obj(arN)', replay={'N': (1, 200), 'method': (0, 2)})
# ---- automatic models: room for the largest model that may be selected (two coefficients more than the regressors: mean and drift)
G = {'pmax': '(5 if pdqmax==NULL else pdqmax[0])', 'dmax': '(2 if pdqmax==NULL else pdqmax[1])', 'qmax': '(5 if pdqmax==NULL else pdqmax[2])',
     'Pmax': '(2 if PDQmax==NULL else PDQmax[0])', 'Dmax': '(1 if PDQmax==NULL else PDQmax[1])', 'Qmax': '(2 if PDQmax==NULL else PDQmax[2])'}
TOT = '(result.pmax+result.qmax+result.Pmax+result.Qmax+r+2)'
objspec('autoN', 'auto_arima_set', {'params': 'flex(pmax+qmax+Pmax+Qmax+M+N+(pmax+qmax+Pmax+Qmax+M)*(pmax+qmax+Pmax+Qmax+M))'}, inv=[], replay={})
C('auto_arima_init', 'ctsa.c', {'pdqmax': 'in[3]?', 'PDQmax': 'in[3]?'}, ['r>=0'],
  ['result.%s==%s' % kv for kv in G.items()] + ['result.%s==%s' % (k, k) for k in ('N', 's', 'r')] + ['result.M==r+2'] + DEF + ['result.%s==0' % k for k in ('start', 'verbose', 'stationary', 'p', 'd', 'q', 'P', 'D', 'Q', 'aic', 'bic', 'aicc')] +
  ['result.stepwise==1', 'result.approximation==(1 if N>150 or s>12 else 0)', 'result.Order_max==5', 'result.seasonal==1', 'result.num_models==94', 'abs(result.alpha_test-0.05)<=1e-12', 'abs(result.alpha_seas-0.05)<=1e-12', 'result.imean==1', 'result.idrift==1',
   'result.p_start==2', 'result.q_start==2', 'result.P_start==1', 'result.Q_start==1', 'forall(i,0,%s+N+%s*%s, result.params[i]==0)' % (TOT, TOT, TOT), 'length(result.params)>=%s+N+%s*%s' % (TOT, TOT, TOT)],
  exits='N<=0 or ' + ' or '.join('%s<0' % v for v in G.values()), ret='obj(autoN)', replay={**IR, 'pdqmax': (0, 4), 'PDQmax': (0, 2), 's': (0, 14), 'N': (20, 200)})
# ---- settings: an accepted value is stored, any other value changes nothing, the other members stay
FI = {'arima': ['N', 'Nused', 'method', 'optmethod', 'p', 'd', 'q', 'M', 'cssml', 'ncoeff', 'lvcov', 'mean', 'var', 'loglik', 'aic', 'retval'],
      'sarima': ['N', 'Nused', 'method', 'optmethod', 'p', 'd', 'q', 's', 'P', 'D', 'Q', 'M', 'cssml', 'ncoeff', 'lvcov', 'mean', 'var', 'loglik', 'aic', 'retval'],
      'sarimax': ['N', 'Nused', 'method', 'optmethod', 'p', 'd', 'q', 's', 'P', 'D', 'Q', 'r', 'M', 'ncoeff', 'lvcov', 'mean', 'var', 'loglik', 'aic', 'retval', 'start', 'imean'],
      'auto': ['N', 'Nused', 'method', 'optmethod', 'pmax', 'dmax', 'qmax', 'Pmax', 'Dmax', 'Qmax', 'p', 'd', 'q', 's', 'P', 'D', 'Q', 'r', 'M', 'ncoeff', 'lvcov', 'mean', 'var', 'loglik', 'ic', 'retval', 'start', 'imean', 'idrift',
               'stationary', 'seasonal', 'Order_max', 'p_start', 'q_start', 'P_start', 'Q_start', 'stepwise', 'num_models', 'approximation', 'verbose', 'alpha_test', 'alpha_seas', 'sigma2', 'aic', 'bic', 'aicc']}
OB = {'arima': 'arimaP', 'sarima': 'sarimaP', 'sarimax': 'sarimaxP', 'auto': 'autoP'}
BUF = {'auto': 'obj.p+obj.q+obj.P+obj.Q+obj.M', 'sarimax': 'obj.p+obj.q+obj.P+obj.Q+obj.M', 'sarima': 'obj.p+obj.q+obj.P+obj.Q', 'arima': 'obj.p+obj.q'}
def keep(k, *but): return ['obj.%s==old(obj.%s)' % (f, f) for f in FI[k] if f not in but] + ['forall(i,0,length(obj.params), obj.params[i]==old(obj.params[i]))']
SET = []
def setter(fn, k, field, arg, lo, hi, exits=None, hr=(-2, 9)):
    SET.append(fn)
    ok = '%s>=%d and %s<=%d' % (arg, lo, arg, hi)
    C(fn, 'ctsa.c', {'obj': 'mobj(%s)' % OB[k]}, [], ['obj.%s==(%s if %s else old(obj.%s))' % (field, arg, ok, field)] + keep(k, field), exits=exits and exits % arg, replay={arg: hr})
for k, pre in (('arima', 'arima'), ('sarima', 'sarima'), ('sarimax', 'sarimax'), ('auto', 'auto_arima')):
    setter(pre + '_setMethod', k, 'method', 'value', 0, 2)
    setter(pre + '_setOptMethod', k, 'optmethod', 'value', 0, 7)
for k in ('arima', 'sarima'): setter(k + '_setCSSML', k, 'cssml', 'cssml', 0, 1, exits='%s<0 or cssml>1')
for fn, f in (('setApproximation', 'approximation'), ('setStepwise', 'stepwise'), ('setStationary', 'stationary'), ('setSeasonal', 'seasonal'), ('allowMean', 'imean'), ('allowDrift', 'idrift'), ('setVerbose', 'verbose')):
    setter('auto_arima_' + fn, 'auto', f, {'imean': 'allowmean', 'idrift': 'allowdrift'}.get(f, f), 0, 1)
# ---- coefficients given by the user; the covariance matrix handed out
def par(nm, cnt, at): return 'forall(i,0,obj.%s, obj.%s[i]==(%s[i] if %s!=NULL else 0))' % (cnt, nm, nm, nm)
C('sarimax_setParams', 'ctsa.c', {'obj': 'mobj(sarimaxP)', 'phi': 'in[obj.p]?', 'theta': 'in[obj.q]?', 'PHI': 'in[obj.P]?', 'THETA': 'in[obj.Q]?'}, [],
  [par('phi', 'p', '0'), par('theta', 'q', 'p'), par('PHI', 'P', 'p+q'), par('THETA', 'Q', 'p+q+P'), 'obj.start==1', 'forall(i,obj.p+obj.q+obj.P+obj.Q,length(obj.params), obj.params[i]==old(obj.params[i]))'] + [x for x in keep('sarimax', 'start') if not x.startswith('forall')])
for k in ('arima', 'sarima', 'sarimax'):
    C(k + '_vcov', 'ctsa.c', {'obj': 'obj(%s)' % OB[k], 'vcov': 'out[obj.lvcov]'}, ['obj.lvcov==(%s%s)*(%s%s)' % (BUF[k], '' if k == 'sarimax' else '+obj.M', BUF[k], '' if k == 'sarimax' else '+obj.M')],
      ['forall(i,0,obj.lvcov, vcov[i]==obj.vcov[i])'])
