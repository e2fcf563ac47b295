"""Forecasts: finite-sample prediction (AS 182) and the prediction functions of the model objects"""
from contracts import Contract as C, objspec
from dsl import spec, rec, ufn
import refmodels
FR = {'phi': 'ip', 'theta': 'iq', 'delta': 'id', 'W': 'N'}
# forecast l (0-based) and its mean square error for the series W of an ARMA(ip,iq) model of sum_k delta-filtered data
ufn('fkY(ip,iq,id,phi,theta,delta,N,W,l)', 'IIIAAAIAI', 'R', ranges=FR, py=refmodels.fkY)
ufn('fkM(ip,iq,id,phi,theta,delta,N,W,l)', 'IIIAAAIAI', 'R', ranges=FR, py=refmodels.fkM)
C('forkal', 'emle.c', {'phi': 'inout[max(ip,iq+1)]', 'theta': 'in[iq]', 'delta': 'in[id]', 'W': 'inout[N]', 'resid': 'out[N-id]', 'Y': 'out[il]', 'AMSE': 'out[il]'},
  ['ip>=0', 'iq>=0', 'id>=0', 'N>id', 'il>=1'],
  ['result==0', 'forall(l,0,il, Y[l]==old(fkY(ip,iq,id,phi,theta,delta,N,W,l)))', 'forall(l,0,il, AMSE[l]==old(fkM(ip,iq,id,phi,theta,delta,N,W,l)))'],
  bounded='random stationary ARMA orders up to (4,4), differencing polynomials of degree up to 4, series up to 30, horizons up to 8', bounded_runs=150,
  replay={'ip': (0, 4), 'iq': (0, 4), 'id': (0, 4), 'il': (1, 8), 'N': (3, 30), 'phi': 'small', 'theta': 'small', 'delta': 'small', '_where': ['sum(i,0,ip,abs(phi[i]))<0.96']})

RP = {'p': (0, 2), 'q': (0, 2), 'd': (0, 1), 'P': (0, 2), 'Q': (0, 2), 'D': (0, 1), 's': (0, 4), 'N': (8, 24), 'M': (0, 3), 'r': (0, 2), 'mean': (-2, 2), 'idrift': (0, 1), '_params': 'small'}
objspec('arimaP', 'arima_set', {'params': 'flex(p+q+N-d+(p+q+M)*(p+q+M))', 'phi': 'at(params,0)', 'theta': 'at(params,p)', 'res': 'at(params,p+q)', 'vcov': 'at(params,p+q+N-d)'},
  inv=['p>=0', 'q>=0', 'd>=0', 'N>d', 'M==0 or M==1'], replay={**RP, 'd': (0, 2), 'M': (0, 1)})
C('arima_predict', 'ctsa.c', {'obj': 'obj(arimaP)', 'inp': 'in[obj.N]', 'xpred': 'out[L]', 'amse': 'out[L]'}, ['L>=1'],
  ['let(m, (obj.mean if obj.d==0 else 0), forall(l,0,L, xpred[l]==m+fkY(obj.p,obj.q,obj.d,obj.phi,fn(k,0-obj.theta[k]),fn(k,0-dcoef(obj.d,k+1)),obj.N,fn(t,inp[t]-m),l)))',
   'let(m, (obj.mean if obj.d==0 else 0), forall(l,0,L, amse[l]==fkM(obj.p,obj.q,obj.d,obj.phi,fn(k,0-obj.theta[k]),fn(k,0-dcoef(obj.d,k+1)),obj.N,fn(t,inp[t]-m),l)))'],
  replay={'L': (1, 6), '_where': ['sum(i,0,obj.p,abs(obj.phi[i]))<0.96']})

# (1 - sum phi[k] B^(k+1)) (1 - sum_{j<P} PHI[j] B^((j+1)s)) = 1 - sum ephi(...,P,s,k) B^(k+1), one seasonal factor at a time
rec('ephi(phi,p,PHI,j,s,k)', 'AIAIII', 'R', '(phi[k] if k<p else 0) if j<=0 else ephi(phi,p,PHI,j-1,s,k)+(PHI[j-1] if j*s==k+1 else 0)-(phi[k-j*s]*PHI[j-1] if j*s<=k and k<j*s+p else 0)', ranges={'phi': 'p', 'PHI': 'j'})
# coefficient k of (1-B)^d (1-B^s)^D
spec('ddc(d,D,s,k)', 'sum(m,max(0,k-D*s),min(k,d)+1,dcoef(d,m)*sdc(D,s,k-m))')
ORD = ['p>=0', 'q>=0', 'd>=0', 'P>=0', 'Q>=0', 'D>=0', 's>=0', 's>=1 or (P==0 and Q==0 and D==0)', 'N>d+s*D']
objspec('sarimaP', 'sarima_set', {'params': 'flex(p+q+P+Q+N-d-s*D+(p+q+P+Q+M)*(p+q+P+Q+M))', 'phi': 'at(params,0)', 'theta': 'at(params,p)', 'PHI': 'at(params,p+q)', 'THETA': 'at(params,p+q+P)',
  'res': 'at(params,p+q+P+Q)', 'vcov': 'at(params,p+q+P+Q+N-d-s*D)'}, inv=ORD + ['M==0 or M==1'], replay={**RP, 'M': (0, 1)})
XF = {'params': 'flex(p+q+P+Q+M+N-d-s*D+(p+q+P+Q+M)*(p+q+P+Q+M))', 'phi': 'at(params,0)', 'theta': 'at(params,p)', 'PHI': 'at(params,p+q)', 'THETA': 'at(params,p+q+P)',
  'exog': 'at(params,p+q+P+Q)', 'res': 'at(params,p+q+P+Q+M)', 'vcov': 'at(params,p+q+P+Q+M+N-d-s*D)'}
objspec('sarimaxP', 'sarimax_set', XF, inv=ORD + ['r>=0', 'M>=r'], replay=RP)
objspec('autoP', 'auto_arima_set', XF, inv=ORD + ['r>=0', 'M>=r+1'], replay=RP)
objspec('wrapP', 'sarimax_wrapper_set', {'sarimax': 'obj(sarimaxP)'}, inv=[], replay=RP)
def fkargs(o, shift):
    return 'fk%s({o}.p+{o}.s*{o}.P,{o}.q+{o}.s*{o}.Q,{o}.d+{o}.D*{o}.s,fn(k,ephi({o}.phi,{o}.p,{o}.PHI,{o}.P,{o}.s,k)),fn(k,0-ephi({o}.theta,{o}.q,{o}.THETA,{o}.Q,{o}.s,k)),fn(k,0-ddc({o}.d,{o}.D,{o}.s,k+1)),{o}.N,fn(t,inp[t]-m{sh}),l)'.format(o=o, sh=shift)
def sloops(o, pl, tl):
    """invariants of the two expansion loops (outer pl / inner pl+1, outer tl / inner tl+1)"""
    R = 'forall(k,0,ir, %s[k]==%s)'
    ep = 'ephi(%s.phi,%s.p,%s.PHI,j,s,k)' % (o, o, o); et = 'ephi(%s.theta,%s.q,%s.THETA,j,s,k)' % (o, o, o)
    one = '(%s.%s[j] if (j+1)*s==k+1 else 0)'; ext = '(%s.%s[k-(j+1)*s]*%s.%s[j] if (j+1)*s<=k and k<(j+1)*s+i else 0)'
    return {pl: [R % ('phi', ep)], pl + 1: [R % ('phi', ep + '+' + one % (o, 'PHI') + '-' + ext % (o, 'phi', o, 'PHI'))],
            tl: [R % ('theta', '0-' + et)], tl + 1: [R % ('theta', '0-' + et + '-' + one % (o, 'THETA') + '+' + ext % (o, 'theta', o, 'THETA'))]}
def predict(name, ob, o, shift, back, params, req, pl, tl, where):
    m = 'let(m, (%s.mean if %s.d==0 and %s.D==0 else 0), forall(l,0,L, ' % (o, o, o)
    C(name, 'ctsa.c', {'obj': 'obj(%s)' % ob, 'inp': 'in[%s.N]' % o, 'xpred': 'out[L]', 'amse': 'out[L]', **params}, ['L>=1'] + req,
      [m + 'xpred[l]==m+%s%s))' % (fkargs(o, shift) % 'Y', back), m + 'amse[l]==%s))' % (fkargs(o, shift) % 'M')],
      loops=sloops(o, pl, tl), cuts={('loop', pl - 3): (['forall(k,1,d+D*s+1, delta[k]==0-ddc(d,D,s,k))'], ['delta'])}, replay={'L': (1, 5), '_where': where})
W = 'sum(i,0,{o}.p+{o}.s*{o}.P,abs(ephi({o}.phi,{o}.p,{o}.PHI,{o}.P,{o}.s,i)))<0.96'
XP = lambda o, r: {'xreg': 'in[%s*%s.N]' % (r, o), 'newxreg': 'in[%s*L]' % r}
predict('sarima_predict', 'sarimaP', 'obj', '', '', {}, [], 5, 7, [W.format(o='obj')])
predict('sarimax_predict', 'sarimaxP', 'obj', '-sum(j,0,obj.r,obj.exog[j]*xreg[j*obj.N+t])', '+sum(j,0,obj.r,obj.exog[j]*newxreg[j*L+l])', XP('obj', 'obj.r'), [], 6, 8, [W.format(o='obj')])
DR = '(1 if obj.idrift==1 else 0)'
def drift(o, r):
    return ('-(%s.exog[0]*(t+1) if obj.idrift==1 else 0)-sum(j,0,%s,%s.exog[j+%s]*xreg[j*%s.N+t])' % (o, r, o, DR, o),
            '+(%s.exog[0]*(l+1+%s.N) if obj.idrift==1 else 0)+sum(j,0,%s,%s.exog[j+%s]*newxreg[j*L+l])' % (o, o, r, o, DR))
predict('auto_arima_predict', 'autoP', 'obj', *drift('obj', 'obj.r'), XP('obj', 'obj.r'), [], 6, 8, [W.format(o='obj')])
RW = '(obj.sarimax.r-%s)' % DR
predict('sarimax_wrapper_predict', 'wrapP', 'obj.sarimax', *drift('obj.sarimax', RW), XP('obj.sarimax', RW), ['obj.sarimax.r>=' + DR], 6, 8, [W.format(o='obj.sarimax')])
objspec('arP', 'ar_set', {'params': 'flex(ordermax+N)', 'phi': 'at(params,0)', 'res': 'at(params,ordermax)'}, inv=['p>=0', 'p<=ordermax', 'N>=1'], replay={**RP, 'ordermax': (0, 5)})
C('ar_predict', 'ctsa.c', {'obj': 'obj(arP)', 'inp': 'in[obj.N]', 'xpred': 'out[L]', 'amse': 'out[L]'}, ['L>=1'],
  ['forall(l,0,L, %s%s(obj.p,0,0,obj.phi,fn(k,0),fn(k,0),obj.N,fn(t,inp[t]-obj.mean),l))' % x for x in (('xpred[l]==obj.mean+', 'fkY'), ('amse[l]==', 'fkM'))],
  replay={'L': (1, 6), '_where': ['sum(i,0,obj.p,abs(obj.phi[i]))<0.96']})
