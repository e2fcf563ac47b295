"""LU factorisation: row-pivoted factors agree with the permuted matrix (bounded: the elimination
invariants over flat two-dimensional indices are not all discharged)"""
from contracts import Contract as C
from dsl import ufn
import refmodels as R
ufn('mInv(n,A,ip,k)', 'IAAI', 'R', ranges={'A': 'n*n', 'ip': 'n'}, py=R.mInv)
ufn('nsing(m,n,A)', 'IIA', 'I', ranges={'A': 'm*n'}, py=R.nsing)
ufn('invM(n,A,k)', 'IAI', 'R', ranges={'A': 'n*n'}, py=R.invM)
LU = ['forall(i,0,N, 0<=ipiv[i] and ipiv[i]<N)',
      'forall(i,0,N, forall(j,i,N, let(r,ipiv[i],old(A[r*N+j]))==sum(l,0,i,A[i*N+l]*A[l*N+j])+A[i*N+j]))',
      'forall(i,0,N, forall(j,0,i, let(r,ipiv[i],old(A[r*N+j]))==sum(l,0,j+1,A[i*N+l]*A[l*N+j])))',
      'forall(i,0,N, forall(j,0,i, abs(A[i*N+j])<=1))', 'implies(nsing(N,N,old(A))==1, forall(i,0,N, A[i*N+i]!=0))', 'implies(nsing(N,N,old(A))==1, forall(k,0,N*N, mInv(N,A,ipiv,k)==invM(N,old(A),k)))']
C('ludecomp', 'matrix.c', {'A': 'inout[N*N]', 'ipiv': 'out[N]'}, ['N>=1'], LU, bounded='random square matrices of order up to 12, singular ones included', bounded_runs=400, replay={'N': (1, 12)})
C('minverse', 'matrix.c', {'A': 'in[N*N]', 'ipiv': 'in[N]', 'inv': 'out[N*N]'}, ['N>=1', 'forall(i,0,N, 0<=ipiv[i] and ipiv[i]<N)'],
  ['implies(forall(i,0,N, A[i*N+i]!=0), forall(k,0,N*N, inv[k]==mInv(N,A,ipiv,k)))'], bounded='random factors of order up to 8', replay={'N': (1, 8), 'ipiv': lambda rng, d, n: rng.sample(range(n), n), 'A': lambda rng, d, n: [(2 + rng.random() if i % (d['N'] + 1) == 0 else rng.uniform(-1, 1)) for i in range(n)]})
C('cl_solve', 'cl_matrix.c', {'A': 'inout[N*N]', 'ipiv': 'out[N]', 'b': 'in[N]', 'x': 'out[N]', 'inv': 'out[N*N]'}, ['N>=1', 'forall(i,0,N, abs(A[i*N+i])>4*N)', 'forall(i,0,N*N, abs(A[i])<=8*N)'],
  ['forall(i,0,N, sum(j,0,N,old(A[i*N+j])*x[j])==b[i])', 'forall(i,0,N, forall(c,0,N, sum(j,0,N,old(A[i*N+j])*inv[j*N+c])==(1 if i==c else 0)))'],
  bounded='diagonally weighted random systems of order up to 10', replay={'N': (1, 10)})
