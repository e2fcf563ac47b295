"""regression.c, lls.c: least squares"""
from contracts import Contract as C
from dsl import spec, rec, ufn
import c_dist
import refmodels as R
ufn('nsing(m,n,A)', 'IIA', 'I', ranges={'A': 'm*n'}, py=R.nsing)          # full rank (well conditioned, when evaluated)
ufn('invM(n,A,k)', 'IAI', 'R', ranges={'A': 'n*n'}, py=R.invM)             # element of the inverse matrix
LS = ['implies(nsing(M,N,Ai)==1 and M<=N, forall(i,0,M, sum(j,0,N,Ai[i*N+j]*xo[j])==bi[i]))',
      'implies(nsing(M,N,Ai)==1 and M>N, forall(k,0,N, sum(i,0,M,Ai[i*N+k]*(sum(j,0,N,Ai[i*N+j]*xo[j])-bi[i]))==0))']
AR = {'M': (1, 8), 'N': (1, 6), 'Ai': 'normal', 'A': 'normal', 'bi': 'normal', 'b': 'normal'}
C('lls_qr', 'lls.c', {'Ai': 'in[M*N]', 'bi': 'in[M]', 'xo': 'out[N]'}, ['M>=1', 'N>=1'], LS + ['implies(nsing(M,N,Ai)==1, result==min(M,N))'], bounded='random systems of up to 8 equations and 6 unknowns', bounded_runs=300, replay=AR)
C('lls_normal', 'lls.c', {'A': 'in[M*N]', 'b': 'in[M]', 'x': 'out[N]'}, ['M>=N', 'N>=1', 'nsing(M,N,A)==1'],
  [e.replace('Ai', 'A').replace('bi', 'b').replace('xo', 'x') for e in LS], bounded='random full-rank systems of up to 8 equations and 6 unknowns', bounded_runs=300, replay=AR)
C('lls_svd2', 'lls.c', {'Ai': 'in[M*N]', 'bi': 'in[M]', 'xo': 'out[N]'}, ['M>=1', 'N>=1', 'M>=N'], LS, bounded='random systems of up to 8 equations and 6 unknowns', bounded_runs=300, replay=AR)
# ---- multiple regression: design element of variable i at time t, cross products
spec('dX(x,N,ic,i,t)', '1 if (ic==1 and i==0) else x[(i-ic)*N+t]')
rec('rgG(x,N,ic,i,j)', 'AIIII', 'R', 'sum(t,0,N,dX(x,N,ic,i,t)*dX(x,N,ic,j,t))')
rec('rgY(x,y,N,ic,i)', 'AAIII', 'R', 'sum(t,0,N,dX(x,N,ic,i,t)*y[t])')
rec('rgF(x,b,N,ic,p,t)', 'AAIIII', 'R', 'sum(j,0,p,dX(x,N,ic,j,t)*b[j])')
DX = lambda i, t: 'dX(xi,N,intercept,%s,%s)' % (i, t)
GG = lambda i, j: 'rgG(xi,N,intercept,%s,%s)' % (i, j)
GY = lambda i: 'rgY(xi,y,N,intercept,%s)' % i
OK = 'nsing(p,p,fn(k,%s))==1' % GG('k//p', 'k%p')
MN = '(sum(t,0,N,y[t])/N)'; TSSM = '(sum(t,0,N,y[t]*y[t])-N*%s*%s)' % (MN, MN)
FT = lambda t: 'rgF(xi,b,N,intercept,p,%s)' % t
HALF = 'tQ(1-alpha/2,N-p)'
LR = ['implies(%s, forall(i,0,p, sum(j,0,p,%s*b[j])==%s))' % (OK, GG('i', 'j'), GY('i')),
      'forall(t,0,N, res[t]==y[t]-%s)' % FT('t'),
      'sigma2[0]==(sum(t,0,N,y[t]*y[t])-sum(i,0,p,b[i]*%s))/(N-p)' % GY('i'),
      'implies(%s, forall(k,0,p*p, xxti[k]==sigma2[0]*invM(p,fn(k,%s),k)))' % (OK, GG('k//p', 'k%p')),
      'implies(intercept==1, R2[0]==(sum(i,0,p,b[i]*%s)-N*%s*%s)/%s)' % (GY('i'), MN, MN, TSSM),
      'implies(intercept==0, R2[0]==sum(t,0,N,%s*%s)/(sum(t,0,N,%s*%s)+sum(t,0,N,res[t]*res[t])))' % ((FT('t'),) * 4),
      'R2[1]==1-(1-R2[0])*(N-intercept)/(N-p)',
      'forall(i,0,p, abs((b[i]-ci_lower[i])-%s*sqrt(xxti[i*(p+1)]))<=1e-3*(1+abs(%s))*sqrt(xxti[i*(p+1)]))' % (HALF, HALF),
      'forall(i,0,p, ci_upper[i]-b[i]==b[i]-ci_lower[i])',
      'implies(intercept==1, anv[1]==R2[0]*%s and anv[2]==(1-R2[0])*%s)' % (TSSM, TSSM),
      'implies(intercept==0, anv[1]==sum(t,0,N,%s*%s) and anv[2]==sum(t,0,N,res[t]*res[t]))' % (FT('t'), FT('t')),
      'anv[0]==anv[1]+anv[2]', 'anv[3]==p-intercept', 'anv[4]==N-p',
      'implies(p>intercept, anv[5]==(R2[0]/(p-intercept))/((1-R2[0])/(N-p)))',
      'implies(p>intercept and anv[5]>=0, abs(anv[6]-(1-iBet((p-intercept)*anv[5]/(N-p+(p-intercept)*anv[5]),(p-intercept)/2,(N-p)/2)))<=1e-6)']
ic = ('choice', [0, 1])
C('linreg_multi', 'regression.c', {'xi': 'in[(p-intercept)*N]', 'y': 'in[N]', 'b': 'out[p]', 'sigma2': 'out[1]', 'xxti': 'out[p*p]', 'R2': 'out[2]', 'res': 'out[N]', 'anv': 'out[7]', 'ci_lower': 'out[p+1]', 'ci_upper': 'out[p+1]', 'rank': 'out[1]', 'llsmethod': 'str'},
  ['p>=1', 'N>p', 'intercept==0 or intercept==1', '0<alpha', 'alpha<1', "llsmethod=='qr'"], LR,
  bounded='random regressions of up to 30 observations and 5 coefficients, by QR', bounded_runs=300,
  replay={'p': (1, 5), 'N': (3, 30), 'intercept': ic, 'alpha': ('choice', [0.01, 0.05, 0.1, 0.5, 0.95]), 'llsmethod': ['qr'], 'xi': 'normal', 'y': 'normal'})
ufn('regO(N,p,ic,alpha,x,y,k)', 'IIIRAAI', 'R', ranges={'x': '(p-ic)*N', 'y': 'N'}, py=R.regO)
ufn('regFit(N,p,ic,x,y,a,k)', 'IIIAAAI', 'R', ranges={'x': '(p-ic)*N', 'y': 'N', 'a': 'p-ic'}, py=R.regFit)
RO = lambda k: 'regO(N,p,intercept,alpha,x,y,%s)' % k
RR = {'p': (0, 5), 'N': (9, 30), 'intercept': ic, 'method': (0, 2), 'alpha': ('choice', [0.01, 0.05, 0.1, 0.5]), 'x': 'normal', 'y': 'normal', '_where': ['p>=intercept']}
C('cl_regress', 'cl_regress.c', {'x': 'in[(p-intercept)*N]', 'y': 'in[N]', 'res': 'out[N]', 'vc': 'out[p*p]', 'out': 'out[4*p+16]'}, ['N>p+2', 'p>=intercept', 'intercept==0 or intercept==1', '0<alpha', 'alpha<1'],
  ['forall(k,0,p, out[k]==%s)' % RO('k'), 'forall(k,p,3*p, abs(out[k]-%s)<=1e-3*(1+abs(%s-%s)))' % (RO('k'), RO('k'), RO('k%p')), 'forall(k,3*p,4*p+16, out[k]==%s)' % RO('k'),
   'forall(k,0,p*p, vc[k]==%s)' % RO('4*p+16+k'), 'forall(k,0,N, res[k]==%s)' % RO('4*p+16+p*p+k')],
  bounded='random regressions of up to 30 observations and 5 coefficients, with and without intercept, by each of the three solvers', bounded_runs=300, replay=RR)
C('cl_fitted', 'cl_regress.c', {'x': 'in[(p-intercept)*N]', 'y': 'in[N]', 'at': 'in[p-intercept]', 'out': 'out[3]'}, ['N>p+2', 'p>=1', 'intercept==0 or intercept==1'], ['forall(k,0,3, out[k]==regFit(N,p,intercept,x,y,at,k))'],
  bounded='random regressions of up to 30 observations and 5 coefficients', bounded_runs=150, replay={**RR, 'p': (1, 5), 'at': 'normal'})
C('zerohyp_multi', 'regression.c', {'b': 'in[p]', 'varcovar': 'in[p*p]', 'tval': 'out[p]', 'pval': 'out[p]'}, ['p>=0', 'N>p', 'forall(i,0,p, varcovar[(p+1)*i]>0)'],
  ['forall(i,0,p, tval[i]==abs(b[i])/sqrt(varcovar[(p+1)*i]))', 'forall(i,0,p, pval[i]==1-tCdf(tval[i],N-p))'],
  loops={0: ['forall(k,0,i, tval[k]==abs(b[k])/sqrt(varcovar[(p+1)*k]))', 'forall(k,0,i, pval[k]==1-tCdf(tval[k],N-p))']},
  replay={'p': (0, 4), 'N': (2, 30), 'b': 'normal', 'varcovar': 'pos'})
C('linreg_clrm', 'regression.c', {'x': 'in[N]', 'y': 'in[N]', 'b': 'out[2]', 'var': 'out[5]', 'res': 'out[N]', 'anv': 'out[7]', 'ci_lower': 'out[3]', 'ci_upper': 'out[3]'}, ['N>=4', '0<alpha', 'alpha<1'],
  ['b[0]==regO(N,2,1,alpha,x,y,0)', 'b[1]==regO(N,2,1,alpha,x,y,1)', 'forall(k,0,2, abs(ci_lower[k]-regO(N,2,1,alpha,x,y,2+k))<=1e-3*(1+abs(b[k]-ci_lower[k])) and abs(ci_upper[k]-regO(N,2,1,alpha,x,y,4+k))<=1e-3*(1+abs(b[k]-ci_lower[k])))',
   'var[1]==regO(N,2,1,alpha,x,y,24)', 'var[2]==regO(N,2,1,alpha,x,y,27)', 'var[3]==regO(N,2,1,alpha,x,y,25)', 'var[0]==regO(N,2,1,alpha,x,y,8)', 'ci_lower[2]==regO(N,2,1,alpha,x,y,9)', 'ci_upper[2]==regO(N,2,1,alpha,x,y,10)',
   'var[4]==regO(N,2,1,alpha,x,y,11)', 'forall(k,0,5, anv[k]==regO(N,2,1,alpha,x,y,13+k))', 'anv[5]==regO(N,2,1,alpha,x,y,18)', 'anv[6]==regO(N,2,1,alpha,x,y,19)', 'forall(t,0,N, res[t]==regO(N,2,1,alpha,x,y,28+t))'],
  bounded='random regressions of up to 40 observations on one variable', bounded_runs=200, replay={'N': (4, 40), 'alpha': ('choice', [0.01, 0.05, 0.1, 0.5]), 'x': 'normal', 'y': 'normal'})
