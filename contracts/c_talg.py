"""talg.c: differencing, deseasoning, ARMA weights, parameter transforms, interpolation, small helpers"""
from contracts import Contract as C
from dsl import spec, rec, ufn

# coefficients of (1 - B)^d
rec('dcoef(d,k)', 'II', 'R', '0 if (k<0 or k>d or d<0) else (1 if d==0 else dcoef(d-1,k)-dcoef(d-1,k-1))')
C('deld', 'talg.c', {'C': 'out[d+1]'}, ['d>=0'], ['forall(k,0,d+1, C[k]==dcoef(d,k))'],
  loops={0: ['forall(k,0,i+1, oup[k]==dcoef(i,k))', 'forall(k,0,i+1, C[k]==dcoef(i,k))']}, replay={'d': (0, 9)})
# coefficients of (1 - B^s)^D
rec('sdc(D,s,m)', 'III', 'R', '0 if (m<0 or m>D*s or D<0) else (1 if D==0 else sdc(D-1,s,m)-sdc(D-1,s,m-s))')
C('delds', 'talg.c', {'C': 'out[D*s+1]'}, ['D>=0', 's>=1'],
  ['forall(k,0,D+1, C[k*s]==dcoef(D,k))', 'forall(k,0,D, forall(r,1,s, C[k*s+r]==0))', 'forall(m,0,D*s+1, C[m]==sdc(D,s,m))'],
  loops={1: ['forall(k,0,i+1, oup[k*s]==dcoef(i,k))', 'forall(k,0,i, forall(r,1,s, oup[k*s+r]==0))', 'forall(m,0,i*s+1, oup[m]==sdc(i,s,m))',
             'forall(k,0,i+1, C[k*s]==dcoef(i,k))', 'forall(k,0,i, forall(r,1,s, C[k*s+r]==0))', 'forall(m,0,i*s+1, C[m]==sdc(i,s,m))']}, replay={'D': (0, 4), 's': (1, 13)})
C('diff', 'talg.c', {'sig': 'in[N]', 'oup': 'out[N-d]'}, ['d>=0', 'N>=d'],
  ['result==N-d', 'forall(t,0,N-d, oup[t]==sum(j,0,d+1,dcoef(d,j)*sig[t+d-j]))'], replay={'d': (0, 5)})
C('diffs', 'talg.c', {'sig': 'in[N]', 'oup': 'out[N-D*s]'}, ['D>=0', 's>=1', 'N>=D*s'],
  ['result==N-D*s', 'forall(t,0,N-D*s, oup[t]==sum(j,0,D+1,dcoef(D,j)*sig[t+D*s-j*s]))'], replay={'D': (0, 3), 's': (1, 13), 'N': (0, 60)})
C('cumsum', 'talg.c', {'x': 'in[N]', 'csum': 'out[N]'}, ['N>=0'], ['forall(k,0,N, csum[k]==sum(i,0,k+1,x[i]))'])
C('linspace', 'talg.c', {'x': 'out[N]'}, ['N>=2'], ['forall(k,0,N, x[k]==xlo+k*(xhi-xlo)/(N-1))'])
C('arrayminmax', 'talg.c', {'x': 'in[N]', 'amin': 'out[1]', 'amax': 'out[1]'}, ['N>=1', 'forall(i,0,N, x[i]<=1.7976931348623157e308)', 'forall(i,0,N, 0-1.7976931348623157e308<=x[i])'],
  ['forall(i,0,N, amin[0]<=x[i])', 'forall(i,0,N, x[i]<=amax[0])', 'exists(i,0,N, amin[0]==x[i])', 'exists(i,0,N, amax[0]==x[i])'])
C('ppsum', 'talg.c', {'u': 'in[n]', 'sum': 'inout[1]'}, ['n>=1', 'l>=0', 'l<n'],
  ['sum[0]==old(sum[0])+2/n*sum(i,1,l+1,(1-i/(l+1))*sum(j,i,n,u[j]*u[j-i]))'])
# ---- ARMA weights
spec('th1(theta,q,i)', '1 if i==0 else (theta[i-1] if i<=q else 0)')
C('psiweight', 'talg.c', {'phi': 'in[p]', 'theta': 'in[q]', 'psi': 'out[j]'}, ['p>=0', 'q>=0', 'j>=1'],
  ['psi[0]==1', 'forall(i,1,j, psi[i]==(theta[i-1] if i<=q else 0)+sum(k,1,min(p,i)+1,phi[k-1]*psi[i-k]))'])
C('piweight', 'talg.c', {'phi': 'in[p]', 'theta': 'in[q]', 'piw': 'out[j]'}, ['p>=0', 'q>=0', 'j>=1'],
  ['piw[0]==1', 'forall(i,1,j, piw[i]==(0-phi[i-1] if i<=p else 0)-sum(k,1,min(q,i)+1,theta[k-1]*piw[i-k]))'])
# ---- stationarity transforms (Durbin-Levinson), row j of the recursion
rec('arow(o,j,k)', 'AII', 'R', 'tanh(o[k]) if j<=k else arow(o,j-1,k)-tanh(o[j])*arow(o,j-1,j-1-k)')
C('artrans', 'talg.c', {'old': 'in[p]', 'new1': 'out[p]'}, ['p>=0'],
  ['forall(k,0,p, new1[k]==arow(old(old),p-1,k))'], alias=[('new1', 'old')],
  loops={1: ['forall(k,0,p, new1[k]==arow(old(old),j-1,k))', 'forall(k,0,p, temp[k]==arow(old(old),j-1,k))']})
# the inverse recursion, row j (from row p-1 down to row 0)
rec('irow(o,p,j,k)', 'AIII', 'R', 'o[k] if j>=p-1 else irow(o,p,j+1,k) if k>j else (irow(o,p,j+1,k)+irow(o,p,j+1,j+1)*irow(o,p,j+1,j-k))/(1-irow(o,p,j+1,j+1)*irow(o,p,j+1,j+1))')
IVL = ['forall(k,0,p, new1[k]==irow(old(old),p,j,k))', 'forall(k,0,p, temp[k]==irow(old(old),p,j,k))']
C('arinvtrans', 'talg.c', {'old': 'in[p]', 'new1': 'out[p]'}, ['p>=0', 'forall(j,1,p, irow(old,p,j,j)*irow(old,p,j,j)!=1)'],
  ['forall(k,0,p, new1[k]==atanh(irow(old(old),p,0,k)))'], alias=[('new1', 'old')],
  loops={1: IVL})
C('cl_artrans_roundtrip', 'cl_talg.c', {'x': 'in[p]', 'y': 'out[p]', 'z': 'out[p]'}, ['p>=0'],
  ['forall(k,0,p, z[k]==x[k])', 'forall(k,0,p, y[k]==arow(x,p-1,k))'], inlines=['arinvtrans'],
  loops={('arinvtrans', 1): ['forall(k,0,p, new1[k]==arow(x,j,k))', 'forall(k,0,p, temp[k]==arow(x,j,k))']})
TA = {'old': 'in[p+q+P+Q]', 'new1': 'out[p+q+P+Q]'}
C('transall', 'talg.c', TA, ['p>=0', 'q>=0', 'P>=0', 'Q>=0'],
  ['forall(k,0,p, new1[k]==arow(old(old),p-1,k))', 'forall(k,0,q, new1[p+k]==arow(old(old)+p,q-1,k))',
   'forall(k,0,P, new1[p+q+k]==arow(old(old)+p+q,P-1,k))', 'forall(k,0,Q, new1[p+q+P+k]==arow(old(old)+p+q+P,Q-1,k))'])
# ---- interpolation
def zk(rng, d):
    if d.get('x') and rng.random() < 0.5: d['z'] = float(rng.choice(d['x']))
ASC = 'forall(a,0,N, forall(b,a+1,N, x[a]<x[b]))'
LIN = ['implies(z<x[0], result==y[0])', 'implies(z>x[N-1], result==y[N-1])', 'implies(N==1, result==y[0])',
       'implies(N>=2 and x[0]<=z and z<=x[N-1], exists(k,0,N-1, x[k]<=z and z<=x[k+1] and (result-y[k])*(x[k+1]-x[k])==(y[k+1]-y[k])*(z-x[k])))']
C('interpolate_linear_sorted_ascending', 'talg.c', {'x': 'in[N]', 'y': 'in[N]'}, ['N>=1', ASC], LIN, static=True,
  loops={0: ['0<=i', 'i<=j', 'j<=N-1', 'implies(N>=2,i<j)', 'x[i]<=z', 'z<=x[j]']}, replay={'x': 'asc', '_fix': zk})
C('approx', 'talg.c', {'x': 'in[N]', 'y': 'in[N]', 'xout': 'in[Nout]', 'yout': 'out[Nout]'}, ['N>=1', 'Nout>=0', ASC],
  ['forall(i,0,Nout, implies(xout[i]<x[0], yout[i]==y[0]))', 'forall(i,0,Nout, implies(xout[i]>x[N-1], yout[i]==y[N-1]))',
   'forall(i,0,Nout, implies(N>=2 and x[0]<=xout[i] and xout[i]<=x[N-1], exists(k,0,N-1, x[k]<=xout[i] and xout[i]<=x[k+1] and (yout[i]-y[k])*(x[k+1]-x[k])==(y[k+1]-y[k])*(xout[i]-x[k]))))'], replay={'x': 'asc'})
