"""initest.c: Yule-Walker, Burg, innovations, Hannan-Rissanen start values"""
from contracts import Contract as C
from dsl import spec, rec, ufn
# autocorrelation of x as an opaque function of the lag
spec('racf(x,N,k)', 'acov(x,N,k)/acov(x,N,0)')
# Levinson-Durbin: coefficients y (negated AR coefficients) of stage k, prediction error factor
def LW(p, x): return ['acov(%s,N,0)>1e-6' % x, 'levb(%s,N,%s)>1e-6' % (x, p)]
rec('levb(x,N,k)', 'AII', 'R', '1 if k<=0 else (1-levy(x,N,k,k-1)*levy(x,N,k,k-1))*levb(x,N,k-1)')
rec('levy(x,N,k,j)', 'AIII', 'R', '(0-racf(x,N,1) if k<=1 else 0-(racf(x,N,k)+sum(m,0,k-1,racf(x,N,m+1)*levy(x,N,k-1,k-2-m)))/levb(x,N,k-1)) if j>=k-1 else levy(x,N,k-1,j)+levy(x,N,k,k-1)*levy(x,N,k-1,k-2-j)')
LEV = ['b==levb(x,N,k)', 'a==levy(x,N,k+1,k)', 'forall(j,0,k+1, y[j]==levy(x,N,k+1,j))']
C('ywalg', 'initest.c', {'x': 'in[N]', 'phi': 'out[p]'}, ['p>=1', 'N>=2', 'p+1<=N'], ['forall(j,0,p, phi[j]==0-levy(x,N,p,j))'], loops={0: ['opaque y a b'] + LEV}, cuts={('b', 0): (['forall(j,1,p+1, acf[j]==racf(x,N,j))', 'acf[0]==1'], ['acf'])}, replay={'_where': LW('p', 'x'), 'p': (1, 8), 'N': (2, 30)})
C('ywalg2', 'initest.c', {'x': 'in[N]', 'phi': 'out[p]', 'var': 'out[1]'}, ['p>=1', 'N>=2', 'p+1<=N'],
  ['forall(j,0,p, phi[j]==0-levy(x,N,p,j))', 'var[0]==acov(x,N,0)*(1-sum(j,0,p,racf(x,N,j+1)*phi[j]))'],
  loops={1: ['opaque y a b'] + LEV}, cuts={('b', 0): (['forall(j,1,p+1, acf[j]==racf(x,N,j))', 'acf[0]==1', 'var[0]==acov(x,N,0)'], ['acf', 'var'])}, replay={'_where': LW('p', 'x'), 'p': (1, 8), 'N': (2, 30)})
C('pacf_yw', 'initest.c', {'vec': 'in[N]', 'par': 'out[M]'}, ['M>=0', 'N>=2', 'M+1<=N'], ['forall(i,0,M, par[i]==0-levy(vec,N,i+1,i))'], replay={'_where': LW('M', 'vec'), 'M': (0, 8), 'N': (2, 30)})
# innovations algorithm
rec('inth(x,l,i,k)', 'AIII', 'R', '0 if (k<=0 or k>i) else (acov(x,l,k)-sum(c,0,i-k,inth(x,l,i-k,i-k-c)*inth(x,l,i,i-c)*inv(x,l,c)))/inv(x,l,i-k)')
rec('inv(x,l,i)', 'AII', 'R', 'acov(x,l,0)-sum(c,0,i,inv(x,l,c)*inth(x,l,i,i-c)*inth(x,l,i,i-c))')
C('innalg', 'initest.c', {'vec': 'in[l]', 'v': 'out[N+1]', 'theta': 'out[(N+1)*(N+1)]'}, ['N>=1', 'N+1<=l'],
  ['forall(i,0,N+1, v[i]==inv(vec,l,i))', 'forall(i,0,N+1, forall(k,1,i+1, theta[i*(N+1)+k]==inth(vec,l,i,k)))'],
  loops={2: ['opaque v theta', 'forall(a,0,i, v[a]==inv(vec,l,a))', 'forall(a,0,i, forall(k,1,a+1, theta[a*lag+k]==inth(vec,l,a,k)))'],
         3: ['opaque theta', 'forall(a,0,i, forall(k,1,a+1, theta[a*lag+k]==inth(vec,l,a,k)))', 'forall(k,i-j+1,i+1, theta[i*lag+k]==inth(vec,l,i,k))']},
  cuts={('v', 0): (['forall(k,0,lag, acov[k]==acov(vec,l,k))'], ['acov'])}, replay={'_where': ['forall(i,0,N+1,inv(vec,l,i)>1e-3*acov(vec,l,0))','acov(vec,l,0)>1e-6'], 'N': (1, 6), 'l': (3, 20)})
C('ma_inn', 'initest.c', {'inp': 'in[N]', 'theta': 'out[q]'}, ['lag>=1', 'q>=0', 'q<=lag', 'lag+1<=N'], ['forall(i,0,q, theta[i]==0-inth(inp,N,lag,i+1))'], replay={'_where': ['forall(i,0,lag+1,inv(inp,N,i)>1e-3*acov(inp,N,0))','acov(inp,N,0)>1e-6'], 'q': (0, 3), 'lag': (3, 6), 'N': (8, 20)})
C('acvf', 'ctsa.c', {'vec': 'in[N]', 'par': 'out[max(0,effM(M,N))]'}, ['N>=1'], ['forall(k,0,effM(M,N), par[k]==acov(vec,N,k))'])
C('acvf2acf', 'ctsa.c', {'acorr': 'inout[M]'}, ['M>=1'], ['acorr[0]==1', 'forall(i,1,M, acorr[i]==old(acorr[i])/old(acorr[0]))'])
C('pacf', 'ctsa.c', {'vec': 'in[N]', 'par': 'out[M]'}, ['M>=0', 'N>=2', 'M+1<=N'], ['forall(i,0,M, par[i]==0-levy(vec,N,i+1,i))'], replay={'_where': LW('M', 'vec'), 'M': (0, 8), 'N': (2, 30)})
C('yw', 'ctsa.c', {'x': 'in[N]', 'phi': 'out[p]', 'var': 'out[1]'}, ['p>=1', 'N>=2', 'p+1<=N'],
  ['forall(j,0,p, phi[j]==0-levy(x,N,p,j))', 'var[0]==acov(x,N,0)*(1-sum(j,0,p,racf(x,N,j+1)*phi[j]))'], replay={'_where': LW('p', 'x'), 'p': (1, 8), 'N': (2, 30)})
# Burg: forward / backward prediction errors of stage k, reflection coefficient, prediction polynomial
rec('bf(x,n,k,t)', 'AIII', 'R', 'x[t] if k<=0 else bf(x,n,k-1,t)+bu(x,n,k)*bb(x,n,k-1,t-k)')
rec('bb(x,n,k,t)', 'AIII', 'R', 'x[t] if k<=0 else bb(x,n,k-1,t)+bu(x,n,k)*bf(x,n,k-1,t+k)')
rec('bu(x,n,k)', 'AII', 'R', '0-2*sum(j,0,n-k,bf(x,n,k-1,j+k)*bb(x,n,k-1,j))/bd(x,n,k-1)')
rec('bd(x,n,k)', 'AII', 'R', '2*sum(j,0,n,x[j]*x[j])-x[0]*x[0]-x[n-1]*x[n-1] if k<=0 else (1-bu(x,n,k)*bu(x,n,k))*bd(x,n,k-1)-bf(x,n,k,k)*bf(x,n,k,k)-bb(x,n,k,n-1-k)*bb(x,n,k,n-1-k)')
rec('ba(x,n,k,j)', 'AIII', 'R', '1 if j<=0 else (0 if j>k else ba(x,n,k-1,j)+bu(x,n,k)*ba(x,n,k-1,k-j))')
def BW(p, x): return ['forall(k,0,%s, bd(%s,N,k)>0.001*sum(i,0,N,%s[i]*%s[i]))' % (p, x, x, x), 'sum(i,0,N,%s[i]*%s[i])>0.001' % (x, x)]
C('burgalg', 'initest.c', {'x': 'in[N]', 'phi': 'out[p]', 'var': 'out[1]'}, ['p>=1', 'p<N', 'forall(k,0,p, bd(x,N,k)!=0)'],
  ['forall(j,0,p, phi[j]==0-ba(x,N,p,j+1))', 'var[0]==(1-bu(x,N,p)*bu(x,N,p))*bd(x,N,p-1)/(2*(N-p))'],
  loops={3: ['opaque fk bk an var dk', 'N==N1-1', 'forall(t,i,N1, fk[t]==bf(x,N1,i,t))', 'forall(t,0,N1-i, bk[t]==bb(x,N1,i,t))', 'dk==bd(x,N1,i)',
             'forall(j,0,i+1, an[j]==ba(x,N1,i,j))', 'forall(j,i+1,p+1, an[j]==0)', 'implies(i>=1, var[0]==(1-bu(x,N1,i)*bu(x,N1,i))*bd(x,N1,i-1)/(2*(N1-i)))'],
         5: ['forall(c,0,j, an[c]==ba(x,N1,i+1,c))', 'forall(c,i+2-j,i+2, an[c]==ba(x,N1,i+1,c))', 'forall(c,j,i+2-j, an[c]==(ba(x,N1,i,c) if c<=i else 0))', 'forall(c,i+2,p+1, an[c]==0)'],
         6: ['forall(c,i+1,i+1+j, fk[c]==bf(x,N1,i+1,c))', 'forall(c,i+1+j,N1, fk[c]==bf(x,N1,i,c))', 'forall(c,0,j, bk[c]==bb(x,N1,i+1,c))', 'forall(c,j,N1-i, bk[c]==bb(x,N1,i,c))']},
  cuts={('loop', 5): (['u==bu(x,N1,i+1)'], ['u'])},
  replay={'p': (1, 6), '_where': BW('p', 'x'), 'N': (7, 24)})
BNZ = 'forall(k,0,%s, bd(%s,N,k)!=0)'
C('pacf_burg', 'initest.c', {'vec': 'in[N]', 'par': 'out[M]'}, ['M>=0', 'M<N', BNZ % ('M', 'vec')], ['forall(i,0,M, par[i]==0-ba(vec,N,i+1,i+1))'], replay={'M': (0, 6), '_where': BW('M', 'vec'), 'N': (7, 24)})
C('burg', 'ctsa.c', {'x': 'in[N]', 'phi': 'out[p]', 'var': 'out[1]'}, ['p>=1', 'p<N', BNZ % ('p', 'x')],
  ['forall(j,0,p, phi[j]==0-ba(x,N,p,j+1))', 'var[0]==(1-bu(x,N,p)*bu(x,N,p))*bd(x,N,p-1)/(2*(N-p))'], replay={'p': (1, 6), '_where': BW('p', 'x'), 'N': (7, 24)})
C('ar', 'ctsa.c', {'inp': 'in[N]', 'phi': 'out[p]', 'var': 'out[1]'}, ['p>=1', 'N>=2', 'p+1<=N', 'method==0 or method==1', BNZ % ('p', 'inp')],
  ['implies(method==0, forall(j,0,p, phi[j]==0-levy(inp,N,p,j)))', 'implies(method==0, var[0]==acov(inp,N,0)*(1-sum(j,0,p,racf(inp,N,j+1)*phi[j])))',
   'implies(method==1, forall(j,0,p, phi[j]==0-ba(inp,N,p,j+1)))', 'implies(method==1, var[0]==(1-bu(inp,N,p)*bu(inp,N,p))*bd(inp,N,p-1)/(2*(N-p)))'], replay={'p': (1, 6), '_where': BW('p', 'inp')+LW('p','inp'), 'N': (7, 24), 'method': ('choice', [0, 1])})
C('pacf_opt', 'ctsa.c', {'vec': 'in[N]', 'par': 'out[M]'}, ['M>=0', 'N>=2', 'M+1<=N', 'method!=2', BNZ % ('M', 'vec')],
  ['implies(method==0, forall(i,0,M, par[i]==0-levy(vec,N,i+1,i)))', 'implies(method==1, forall(i,0,M, par[i]==0-ba(vec,N,i+1,i+1)))'], replay={'M': (0, 6), '_where': BW('M', 'vec')+LW('M','vec'), 'N': (7, 24), 'method': ('choice', [0, 1])})
# Hannan-Rissanen: long autoregression of order m, then least squares on lagged values and lagged residuals
rec('hra(x,N,m,t)', 'AIII', 'R', '0 if t<m else (x[t]-mean(x,N))+sum(i,0,m,levy(x,N,m,i)*(x[t-i-1]-mean(x,N)))')
spec('hrm(p,q,N)', '10 if max(p,q)<10 and N>p+q+20 else max(p,q)+1')
spec('hre(x,N,m,p,q,phi,th,t)', '(x[t]-mean(x,N))-sum(i,0,p,phi[i]*(x[t-i-1]-mean(x,N)))+sum(i,0,q,th[i]*hra(x,N,m,t-i-1))')
C('hralg', 'initest.c', {'x': 'in[N]', 'phi': 'out[p]', 'theta': 'out[q]', 'var': 'out[1]'}, ['p>=0', 'q>=0', 'p+q>=1', 'N>=hrm(p,q,N)+p+2*q+8'],
  ['let(m,hrm(p,q,N),forall(c,0,p, sum(t,m+q,N,hre(x,N,m,p,q,phi,theta,t)*(x[t-c-1]-mean(x,N)))/(N*acov(x,N,0))==0))',
   'let(m,hrm(p,q,N),forall(c,0,q, sum(t,m+q,N,hre(x,N,m,p,q,phi,theta,t)*hra(x,N,m,t-c-1))/(N*acov(x,N,0))==0))',
   'let(m,hrm(p,q,N),var[0]*(N-m-q)==sum(t,m+q,N,hre(x,N,m,p,q,phi,theta,t)*hre(x,N,m,p,q,phi,theta,t)))'],
  bounded='random series of length up to 40, orders up to 3', bounded_runs=60, replay={'p': (0, 3), 'q': (0, 3), 'N': (18, 40), 'x': 'normal', '_where': ['levb(x,N,hrm(p,q,N))>0.01', 'acov(x,N,0)>0.01', 'abs(racf(x,N,1))>0.2']})
C('hr', 'ctsa.c', inline=True)
