"""stats.c, errors.c, filter.c, conv.c (direct), talg.c (polynomials, differencing, small helpers), boxcox.c"""
from contracts import Contract as C
from dsl import spec, rec, ufn

# ------------------------------------------------------------------ stats.c
spec('mean(x,n)', 'sum(i,0,n,x[i])/n')
spec('var(x,n)', 'sum(i,0,n,(x[i]-mean(x,n))*(x[i]-mean(x,n)))/n')
rec('acov(x,n,k)', 'AII', 'R', 'sum(t,0,n-k,(x[t]-mean(x,n))*(x[t+k]-mean(x,n)))/n')
spec('effM(M,N)', 'N-1 if M>N else (0 if M<0 else M)')
C('mean', 'stats.c', {'vec': 'in[N]'}, ['N>=1'], ['result==mean(vec,N)'])
C('var', 'stats.c', {'vec': 'in[N]'}, ['N>=1'], ['result==var(vec,N)'])
C('autocovar', 'stats.c', {'vec': 'in[N]', 'acov': 'out[max(0,effM(M,N))]'}, ['N>=1'],
  ['forall(k,0,effM(M,N), acov[k]==acov(vec,N,k))'])
C('autocorr', 'stats.c', {'vec': 'in[N]', 'acorr': 'out[max(1,effM(M,N))]'}, ['N>=2', 'effM(M,N)>=1'],
  ['acorr[0]==1', 'forall(k,1,effM(M,N), acorr[k]==acov(vec,N,k)/acov(vec,N,0))'])

# ------------------------------------------------------------------ errors.c
P = {'predicted': 'in[N]', 'actual': 'in[N]'}
C('pe', 'errors.c', {**P, 'err': 'out[N]'}, ['N>=0'], ['forall(i,0,N, err[i]==100*(actual[i]-predicted[i])/actual[i])'], static=True)
C('me', 'errors.c', P, ['N>=1'], ['result==sum(i,0,N,actual[i]-predicted[i])/N'])
C('mse', 'errors.c', P, ['N>=1'], ['result==sum(i,0,N,(actual[i]-predicted[i])*(actual[i]-predicted[i]))/N'])
C('rmse', 'errors.c', P, ['N>=1'], ['result==sqrt(sum(i,0,N,(actual[i]-predicted[i])*(actual[i]-predicted[i]))/N)'])
C('mae', 'errors.c', P, ['N>=1'], ['result==sum(i,0,N,abs(actual[i]-predicted[i]))/N'])
NZ = 'forall(i,0,N, actual[i]!=0)'
C('mape', 'errors.c', P, ['N>=1', NZ], ['result==sum(i,0,N,abs(100*(actual[i]-predicted[i])/actual[i]))/N'])
C('mpe', 'errors.c', P, ['N>=1', NZ], ['result==sum(i,0,N,100*(actual[i]-predicted[i])/actual[i])/N'])
C('mase', 'errors.c', {**P, 'tseries': 'in[length]'}, ['N>=1', 'length>=2'],
  ['result==(sum(i,0,N,abs(actual[i]-predicted[i]))/N)/(sum(i,1,length,abs(tseries[i]-tseries[i-1]))/(length-1))'])

# ------------------------------------------------------------------ conv.c / filter.c
spec('convat(a,na,b,nb,k)', 'sum(m, max(0,k-nb+1), min(k,na-1)+1, a[m]*b[k-m])')
CONVP = {'inp1': 'in[N]', 'inp2': 'in[L]', 'oup': 'out[N+L-1]'}
C('conv_direct', 'conv.c', CONVP, ['N>=1', 'L>=1'], ['forall(k,0,N+L-1, oup[k]==convat(inp1,N,inp2,L,k))'])
C('conv_directx', 'conv.c', CONVP, ['N>=1', 'L>=1'], ['forall(k,0,N+L-1, oup[k]==convat(inp1,N,inp2,L,k))'])
FP = {'sig': 'in[len_sig]', 'filt': 'in[len_filt]', 'oup': 'out[len_sig+len_filt-1]'}
for f in ('conv', 'convx'):
    C(f, 'filter.c', FP, ['len_sig>=1', 'len_filt>=1'], ['forall(k,0,len_sig+len_filt-1, oup[k]==convat(sig,len_sig,filt,len_filt,k))'])
C('filter', 'filter.c', {**FP, 'oup': 'out[len_sig]'}, ['len_sig>=1', 'len_filt>=1'], ['forall(k,0,len_sig, oup[k]==convat(sig,len_sig,filt,len_filt,k))'])
C('norm2', 'filter.c', {'array': 'in[N]'}, ['N>=0'], ['result==sqrt(sum(i,0,N,array[i]*array[i]))'])
spec('ext(x,n,i)', 'x[0] if i<0 else (x[n-1] if i>=n else x[i])')
spec('ma_even(x,n,w,k)', '(sum(j,-(w//2)+1,w//2, ext(x,n,k+j)) + ext(x,n,k-w//2)/2 + ext(x,n,k+w//2)/2)/w')
spec('ma_odd(x,n,w,k)', 'sum(j,-(w//2),w//2+1, ext(x,n,k+j))/w')
spec('ma(x,n,w,k)', 'ma_odd(x,n,w,k) if w%2==1 else ma_even(x,n,w,k)')
C('mafilter', 'filter.c', {'sig': 'in[N]', 'oup': 'out[N]'}, ['N>=1', 'window>=1'], ['forall(k,0,N, oup[k]==ma(sig,N,window,k))'], residue=('window',2))
C('detrend_ma', 'talg.c', {'sig': 'in[N]', 'oup': 'out[N]'}, ['N>=1', 'window>=1'], ['forall(k,0,N, oup[k]==ma(sig,N,window,k))'], residue=('window',2))
C('mafilter2', 'filter.c', {'sig': 'in[N]', 'oup': 'out[N]'}, ['N>=1', 'window>=1', 'N>=2*(window//2)'],
  ['forall(k,window//2,N-window//2, oup[k]==ma(sig,N,window,k))',
   'forall(k,0,window//2, oup[k]==sig[k])', 'forall(k,N-window//2,N, oup[k]==sig[k])'], residue=('window',2))
C('expfilter', 'filter.c', {'sig': 'in[N]', 'oup': 'out[N]'}, ['N>=1'],
  ['oup[0]==sig[0]', 'forall(i,1,N, oup[i]==alpha*sig[i]+(1-alpha)*oup[i-1])'])
C('mafilter_wt', 'filter.c', {'sig': 'in[N]', 'weights': 'in[window]', 'oup': 'out[N]'}, ['N>=1', 'window>=1'],
  ['forall(k,0,N, oup[k]==sum(j,0,window, weights[j]*ext(sig,N,k+j-window//2)))'])

# ------------------------------------------------------------------ talg.c
C('poly', 'talg.c', {'A': 'in[lA]', 'B': 'in[lB]', 'C': 'out[lA+lB-1]'}, ['lA>=1', 'lB>=1'],
  ['result==lA+lB-1', 'forall(k,0,lA+lB-1, C[k]==convat(A,lA,B,lB,k))'])
C('upsample', 'talg.c', {'x': 'in[lenx]', 'y': 'out[(lenx if M==0 else (M*(lenx-1)+1 if M>0 else 0))]'}, ['lenx>=1'],
  ['result==(-1 if M<0 else (lenx if M==0 else M*(lenx-1)+1))',
   'implies(M==0, forall(i,0,lenx, y[i]==x[i]))',
   'implies(M>0, forall(k,0,lenx, y[k*M]==x[k]))',
   'implies(M>0, forall(k,0,lenx-1, forall(j,1,M, y[k*M+j]==0)))'],
  loops={1: ['i==M*k-j+1', '1<=j', 'j<=M', '0<=k', 'k<=lenx', 'forall(c,0,k, y[c*M]==x[c])',
             'forall(c,0,lenx, forall(d,1,M, implies(c*M+d<i, y[c*M+d]==0)))']})
C('downsample', 'talg.c', {'x': 'in[lenx]', 'y': 'out[(lenx if M==0 else ((lenx-1)//M+1 if M>0 else 0))]'}, ['lenx>=1'],
  ['result==(-1 if M<0 else (lenx if M==0 else (lenx-1)//M+1))',
   'implies(M==0, forall(i,0,lenx, y[i]==x[i]))',
   'implies(M>0, forall(k,0,(lenx-1)//M+1, y[k]==x[k*M]))'])
