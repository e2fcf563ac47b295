"""matrix.c"""
from contracts import Contract as C
from dsl import spec, rec, ufn
C('pmax', 'matrix.c', {}, [], ['result==max(a,b)'])
C('pmin', 'matrix.c', {}, [], ['result==min(a,b)'])
C('imax', 'matrix.c', {}, [], ['result==max(a,b)'])
C('imin', 'matrix.c', {}, [], ['result==min(a,b)'])
C('signx', 'matrix.c', {}, [], ['result==(1 if x>=0 else 0-1)'])
C('iabs', 'matrix.c', {}, [], ['result==abs(a)'])
C('l2norm', 'matrix.c', {'vec': 'in[N]'}, ['N>=0'], ['result==sqrt(sum(i,0,N,vec[i]*vec[i]))'])
C('array_max_abs', 'matrix.c', {'array': 'in[N]'}, ['N>=0'], ['result>=0', 'forall(i,0,N, abs(array[i])<=result)', 'implies(N>=1, exists(i,0,N, abs(array[i])==result))'])
C('array_max', 'matrix.c', {'array': 'in[N]'}, ['N>=1'], ['forall(i,0,N, array[i]<=result)', 'exists(i,0,N, array[i]==result)'])
C('array_min', 'matrix.c', {'array': 'in[N]'}, ['N>=1'], ['forall(i,0,N, result<=array[i])', 'exists(i,0,N, array[i]==result)'])
RC = ['rows>=1', 'cols>=1']
TP = ['forall(i,0,rows, forall(j,0,cols, col[j*rows+i]==sig[i*cols+j]))']
C('stranspose', 'matrix.c', {'sig': 'in[rows*cols]', 'col': 'out[rows*cols]'}, RC, TP, replay={'rows': (1, 70), 'cols': (1, 70)})
C('rtranspose', 'matrix.c', {'m': 'in[(rows-1)*c+cols]', 'n': 'inout[(cols-1)*r+rows]'}, ['rows>=1', 'cols>=1', 'r>=rows', 'c>=cols'],
  ['forall(i,0,rows, forall(j,0,cols, n[j*r+i]==m[i*c+j]))', 'forall(j,1,cols, forall(i,rows-r,0, n[j*r+i]==old(n[j*r+i])))'], split=['rows<=64 and cols<=64', 'cols>=rows'])
C('ctranspose', 'matrix.c', {'sig': 'in[rows*cols]', 'col': 'out[rows*cols]'}, RC, TP)
C('mtranspose', 'matrix.c', {'sig': 'in[rows*cols]', 'col': 'out[rows*cols]'}, RC, TP)
M2 = {'A': 'in[rows*cols]', 'B': 'in[rows*cols]', 'C': 'out[rows*cols]'}
C('madd', 'matrix.c', M2, ['rows>=0', 'cols>=0'], ['forall(i,0,rows*cols, C[i]==old(A[i])+old(B[i]))'], alias=[('C', 'A')])
C('msub', 'matrix.c', M2, ['rows>=0', 'cols>=0'], ['forall(i,0,rows*cols, C[i]==old(A[i])-old(B[i]))'], alias=[('C', 'A')])
C('scale', 'matrix.c', {'A': 'inout[rows*cols]'}, ['rows>=0', 'cols>=0'], ['forall(i,0,rows*cols, A[i]==alpha*old(A[i]))'])
MM = {'A': 'in[ra*ca]', 'B': 'in[ca*cb]', 'C': 'out[ra*cb]'}
MP = 'forall(i,0,ra, forall(j,0,cb, C[i*cb+j]==sum(k,0,ca,A[i*ca+k]*B[k*cb+j])))'
C('nmult', 'matrix.c', MM, ['ra>=1', 'ca>=1', 'cb>=1'], [MP])
C('tmult', 'matrix.c', MM, ['ra>=1', 'ca>=1', 'cb>=1'], [MP])
SM = ['forall(i,0,m, forall(j,0,p, C[i*p+j]==sum(k,0,n,A[i*n+k]*B[k*p+j])))']
SMP = {'A': 'in[m*n]', 'B': 'in[n*p]', 'C': 'out[m*p]'}
C('mmult', 'matrix.c', SMP, ['m>=1', 'n>=1', 'p>=1'], SM, replay={'m': (1, 60), 'n': (1, 60), 'p': (1, 60)})
C('smult', 'matrix.c', SMP, ['m>=1', 'n>=1', 'p>=1'], SM, bounded='Strassen recursion: dimensions up to 110 in each direction, random integers', bounded_runs=30, replay={'m': (1, 110), 'n': (1, 110), 'p': (1, 110)})
C('rmult', 'matrix.c', SMP, ['m>=1', 'n>=1', 'p>=1'], SM, replay={'m': (1, 90), 'n': (1, 90), 'p': (1, 90)})
C('recmult', 'matrix.c', {'A': 'in[(m-1)*sB+n]', 'B': 'in[(n-1)*sC+p]', 'C': 'inout[(m-1)*sC+p]'}, ['m>=1', 'n>=1', 'p>=1', 'sB>=n', 'sC>=p'],
  ['forall(i,0,m, forall(j,0,p, C[i*sC+j]==old(C[i*sC+j])+sum(k,0,n,A[i*sB+k]*B[k*sC+j])))', 'forall(i,1,m, forall(j,p-sC,0, C[i*sC+j]==old(C[i*sC+j])))', 'forall(i,0,m-1, forall(j,p,sC, C[i*sC+j]==old(C[i*sC+j])))'],
  split=['m+n+p<=192', 'm>=n and m>=p', 'n>=m and n>=p'], replay={'m': (1, 90), 'n': (1, 90), 'p': (1, 90)})
C('add_zero_pad', 'matrix.c', {'X': 'in[rows*cols]', 'Y': 'out[(rows+zrow)*(cols+zcol)]'}, ['rows>=1', 'cols>=1', 'zrow>=0', 'zcol>=0'],
  ['forall(i,0,rows+zrow, forall(j,0,cols+zcol, Y[i*(cols+zcol)+j]==(X[i*cols+j] if (i<rows and j<cols) else 0)))'])
C('remove_zero_pad', 'matrix.c', {'Y': 'in[rows*cols]', 'Z': 'out[(rows-zrow)*(cols-zcol)]'}, ['zrow>=0', 'zcol>=0', 'rows>zrow', 'cols>zcol'],
  ['forall(i,0,rows-zrow, forall(j,0,cols-zcol, Z[i*(cols-zcol)+j]==Y[i*cols+j]))'])
ST = {'A': 'in[(rows-1)*sA+cols]', 'B': 'in[(rows-1)*sB+cols]', 'C': 'inout[(rows-1)*sC+cols]'}
SR = ['rows>=1', 'cols>=1', 'sA>=cols', 'sB>=cols', 'sC>=cols']
C('madd_stride', 'matrix.c', ST, SR, ['forall(i,0,rows, forall(j,0,cols, C[i*sC+j]==A[i*sA+j]+B[i*sB+j]))', 'forall(i,1,rows, forall(j,cols-sC,0, C[i*sC+j]==old(C[i*sC+j])))'])
C('msub_stride', 'matrix.c', ST, SR, ['forall(i,0,rows, forall(j,0,cols, C[i*sC+j]==A[i*sA+j]-B[i*sB+j]))', 'forall(i,1,rows, forall(j,cols-sC,0, C[i*sC+j]==old(C[i*sC+j])))'])
# linear systems: the factors and the two triangular solves
rec('fwd(A,b,ip,N,i)', 'AAAII', 'R', 'b[ip[i]]-sum(j,0,i,fwd(A,b,ip,N,j)*A[i*N+j])')
C('linsolve', 'matrix.c', {'A': 'in[N*N]', 'b': 'in[N]', 'ipiv': 'in[N]', 'x': 'out[N]'},
  ['N>=1', 'forall(i,0,N, 0<=ipiv[i] and ipiv[i]<N)', 'forall(i,0,N, A[i*N+i]!=0)'],
  ['forall(i,0,N, sum(j,i,N,A[i*N+j]*x[j])==fwd(A,b,ipiv,N,i))'],
  loops={1: ['opaque y', 'forall(c,0,i, y[c]==fwd(A,b,ipiv,N,c))'], 3: ['opaque x', 'forall(c,i+1,N, sum(j,c,N,A[c*N+j]*x[j])==fwd(A,b,ipiv,N,c))']}, replay={'N': (1, 5)})
C('eye', 'matrix.c', {'mat': 'out[N*N]'}, ['N>=1'], ['forall(i,0,N, forall(j,0,N, mat[i*N+j]==(1 if i==j else 0)))'])
C('eye_scale', 'matrix.c', {'mat': 'out[N*N]'}, ['N>=1'], ['forall(i,0,N, forall(j,0,N, mat[i*N+j]==(lambda if i==j else 0)))'])

