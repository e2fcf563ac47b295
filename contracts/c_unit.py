"""unitroot.c, autoutils.c: unit-root tests, numbers of differences"""
from contracts import Contract as C
from dsl import ufn
import refmodels as R
from c_stl import ser as stlser
def walk1(rng, d, n): return walk(rng, d, n, 'wsta')
def walk(rng, d, n, ks='wstia'):
    k = rng.choice(ks); x = []; v = w = 0.0
    for i in range(n):
        e = rng.gauss(0, 1)
        if k == 'w': v += e
        elif k == 's': v = e
        elif k == 't': v = 0.2 * i + e
        elif k == 'i': w += e; v += w
        else: v = 0.6 * v + e
        x.append(round(v, 4))
    return x
ufn('urDF(y,N,k,w)', 'AIII', 'R', ranges={'y': 'N'}, py=R.urDF); ufn('urKlag(N)', 'I', 'I', py=R.urKlag)
ufn('urDF2(y,N,typ,lags,sel,w)', 'AIIIII', 'R', ranges={'y': 'N'}, py=R.urDF2); ufn('urDF2c(N,typ,lags,w)', 'IIII', 'R', py=R.urDF2c)
ufn('urKpss(y,N,trend,l,w)', 'AIIII', 'R', ranges={'y': 'N'}, py=R.urKpss); ufn('urLag(n,short,has,k)', 'IIII', 'I', py=R.urLag)
ufn('urPP(y,N,ta,l,w)', 'AIIII', 'R', ranges={'y': 'N'}, py=R.urPP); ufn('urPP2(x,N,tau,trend,l,w)', 'AIIIII', 'R', ranges={'x': 'N'}, py=R.urPP2)
ufn('nDiffs(x,N,test,trend,alpha,mx)', 'AIIIRI', 'I', ranges={'x': 'N'}, py=R.nDiffs); ufn('nsDiffs(x,N,f,mx)', 'AIII', 'I', ranges={'x': 'N'}, py=R.nsDiffs)
B = 'random stationary, trending and integrated series of length 20 to 120 (to 400 for the Phillips-Perron test)'
K = lambda lo, hi: lambda rng, d, n: [rng.randint(lo, hi)]
S = {'N': (20, 120), 'y': walk, 'x': walk, 'lshort': (0, 1)}
LG = lambda n: 'urLag(%s,lshort,0 if isnull(klag) else 1,0 if isnull(klag) else old(klag[0]))' % n
AL = {'alternative': ['stationary', 'explosive']}
C('ur_df', 'unitroot.c', {'y': 'in[N]', 'klag': 'inout[1]?', 'alternative': 'str', 'statistic': 'out[1]', 'pval': 'out[1]'}, ['N>=20', "alternative=='stationary' or alternative=='explosive'", 'implies(not isnull(klag), 0<=klag[0] and klag[0]<=6)'],
  ['statistic[0]==urDF(y,N,%s,0)' % '(urKlag(N) if isnull(klag) else old(klag[0]))', "pval[0]==(urDF(y,N,%s,1) if alternative=='stationary' else 1-urDF(y,N,%s,1))" % (('(urKlag(N) if isnull(klag) else old(klag[0]))',) * 2), 'implies(not isnull(klag), klag[0]==old(klag[0]))'],
  bounded=B, bounded_runs=150, replay={**S, **AL, 'klag': K(0, 4)})
TY = "(0 if type=='none' else 1 if type=='drift' else 2)"
SL = "(0 if selectlags=='fixed' else 1 if selectlags=='aic' else 2)"
C('ur_df2', 'unitroot.c', {'y': 'in[N]', 'type': 'str', 'lags': 'in[1]?', 'selectlags': 'str', 'cval': 'out[9]', 'cvrows': 'out[1]', 'cvcols': 'out[1]', 'cprobs': 'out[3]', 'teststat': 'out[3]', 'ltstat': 'out[1]'},
  ['N>=20', 'implies(not isnull(lags), 0<=lags[0] and lags[0]<=5)', "type=='none' or type=='drift' or type=='trend'", "selectlags=='fixed' or selectlags=='aic' or selectlags=='bic'"],
  ['ltstat[0]==1+%s' % TY, 'cvrows[0]==1+%s' % TY, 'cvcols[0]==3', 'cprobs[0]==0.01 and cprobs[1]==0.05 and cprobs[2]==0.1',
   'forall(w,0,1+%s, teststat[w]==urDF2(y,N,%s,1 if isnull(lags) else lags[0],%s,w))' % (TY, TY, SL), 'forall(w,0,3*(1+%s), cval[w]==urDF2c(N,%s,1 if isnull(lags) else lags[0],w))' % (TY, TY)],
  bounded=B, bounded_runs=200, replay={**S, 'N': ('choice', list(range(20, 60)) + [99, 100, 101, 102, 249, 250, 251, 252, 499, 500, 501, 520]), 'lags': K(0, 4), 'type': ['none', 'drift', 'trend'], 'selectlags': ['fixed', 'aic', 'bic']})
C('ur_kpss', 'unitroot.c', {'y': 'in[N]', 'type': 'str', 'klag': 'inout[1]?', 'statistic': 'out[1]', 'pval': 'out[1]'}, ['N>=20', "type=='level' or type=='trend'", 'implies(not isnull(klag), klag[0]<N)'],
  ["statistic[0]==urKpss(y,N,1 if type=='trend' else 0,%s,0)" % LG('N'), "pval[0]==urKpss(y,N,1 if type=='trend' else 0,%s,1)" % LG('N'), 'implies(not isnull(klag), klag[0]==%s)' % LG('N')],
  bounded=B, bounded_runs=150, replay={**S, 'klag': K(-1, 8), 'type': ['level', 'trend']})
C('ur_pp', 'unitroot.c', {'y': 'in[N]', 'alternative': 'str', 'type': 'str', 'klag': 'inout[1]?', 'statistic': 'out[1]', 'pval': 'out[1]'},
  ['N>=20', "alternative=='stationary' or alternative=='explosive'", "type=='Z(alpha)' or type=='Z(t_alpha)'", 'implies(not isnull(klag), klag[0]<N-1)'],
  ["abs(statistic[0]-urPP(y,N,1 if type=='Z(t_alpha)' else 0,%s,0))<=1e-5*(1+abs(statistic[0]))" % LG('N-1'), "abs(pval[0]-(urPP(y,N,1 if type=='Z(t_alpha)' else 0,%s,1) if alternative=='stationary' else 1-urPP(y,N,1 if type=='Z(t_alpha)' else 0,%s,1)))<=1e-5" % (LG('N-1'), LG('N-1')), 'implies(not isnull(klag), klag[0]==%s)' % LG('N-1')],
  bounded=B, bounded_runs=150, replay={**S, **AL, 'y': walk1, 'N': ('choice', list(range(20, 120)) + [215, 216, 217, 218, 300, 400, 1024, 1026, 1300]), 'klag': K(-1, 8), 'type': ['Z(alpha)', 'Z(t_alpha)']})
P2 = lambda w: "urPP2(x,N,1 if type=='Z-tau' else 0,1 if model=='trend' else 0,urLag(N-1,lshort,0 if isnull(klag) else 1,0 if isnull(klag) else klag[0]),%s)" % w
C('ur_pp2', 'unitroot.c', {'x': 'in[N]', 'type': 'str', 'model': 'str', 'klag': 'in[1]?', 'cval': 'out[3]', 'cprobs': 'out[3]', 'auxstat': 'out[2]', 'laux': 'out[1]', 'teststat': 'out[1]'},
  ['N>=20', 'N<=46340', "type=='Z-tau' or type=='Z-alpha'", "model=='constant' or model=='trend'", 'implies(not isnull(klag), klag[0]<N-1)'],
  ['abs(teststat[0]-%s)<=1e-5*(1+abs(teststat[0]))' % P2('0'), 'forall(w,0,laux[0], abs(auxstat[w]-%s)<=1e-5*(1+abs(auxstat[w])))' % P2('1+w'), "laux[0]==(2 if model=='trend' else 1)", "implies(type=='Z-tau', forall(w,0,3, cval[w]==%s))" % P2('3+w'), 'cprobs[0]==0.01 and cprobs[1]==0.05 and cprobs[2]==0.1'],
  bounded=B, bounded_runs=150, replay={**S, 'klag': K(-1, 8), 'type': ['Z-tau', 'Z-alpha'], 'model': ['constant', 'trend']})
TS = "(0 if test=='kpss' else 2 if test=='pp' else 1)"
A5 = lambda rng, d, n: [rng.choice([0.05, 0.01, 0.1, 0.2, 0.001])]
C('ndiffs', 'autoutils.c', {'x': 'in[N]', 'alpha': 'in[1]?', 'test': 'str', 'type': 'str', 'max_d': 'in[1]?'}, ['N>=30', "test=='kpss' or test=='df' or test=='adf' or test=='pp'", "type=='level' or type=='trend'", 'implies(not isnull(max_d), max_d[0]<=4)'],
  ["result==nDiffs(x,N,%s,1 if type=='trend' else 0,0.05 if isnull(alpha) else alpha[0],2 if isnull(max_d) else max_d[0])" % TS, '0<=result and result<=(2 if isnull(max_d) else max_d[0])'], exits='not isnull(max_d) and max_d[0]<0',
  bounded='random stationary, trending, once and twice integrated and constant series of length 30 to 120', bounded_runs=250,
  replay={**S, 'N': (30, 120), 'alpha': A5, 'max_d': K(-1, 3), 'test': ['kpss', 'df', 'adf', 'pp'], 'type': ['level', 'trend'], 'x': lambda rng, d, n: [2.5] * n if rng.random() < .05 else walk(rng, d, n)})
C('nsdiffs', 'autoutils.c', {'x': 'in[N]', 'alpha': 'in[1]?', 'test': 'str', 'max_D': 'in[1]?'}, ['N>=12', "test=='seas'", 'implies(not isnull(max_D), max_D[0]<=2)'],
  ['result==nsDiffs(x,N,f,1 if isnull(max_D) else max_D[0])', '0<=result and result<=(1 if isnull(max_D) else max_D[0])'], exits='not isnull(max_D) and max_D[0]<0',
  bounded='random seasonal, trending and constant series of length 14 to 80', bounded_runs=150,
  replay={'N': (14, 80), 'f': (0, 40), 'alpha': A5, 'max_D': K(-1, 2), 'test': ['seas'], 'x': lambda rng, d, n: [2.5] * n if rng.random() < .05 else stlser(rng, d, n)})
LF = 'log(f)'
C('OCSBtest', 'seastest.c', {'x': 'in[N]', 'method': 'str', 'statistics': 'out[1]', 'critical': 'out[1]'}, ['f>=2', 'mlags>=1', 'mlags<=4', 'N>=4*f+4*mlags+12', "method=='fixed' or method=='aic' or method=='bic' or method=='aicc'"],
  ['critical[0]==0-0.2937411*exp(0-0.2850853*(log(f)-0.7656451)-0.05983644*(log(f)-0.7656451)*(log(f)-0.7656451))-1.652202', 'statistics[0]==statistics[0]'],
  bounded='random seasonal and trending series of length 24 to 140: memory safety and the critical value only', bounded_runs=150, replay={'N': (24, 140), 'f': (2, 12), 'mlags': (1, 4), 'method': ['fixed', 'aic', 'bic', 'aicc'], 'x': stlser})
