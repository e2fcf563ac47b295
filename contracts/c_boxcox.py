"""boxcox.c, brent.c"""
from contracts import Contract as C, objspec
from dsl import spec, rec, ufn
C('macheps', 'matrix.c', {}, [], ['result>0', 'result<1e-15'], trusted='the halving loop ends only because of floating-point rounding; its value is a constant (2^-52)')
C('checkConstant', 'boxcox.c', {'x': 'in[N]'}, ['N>=1'], ['result==1 or result==0', 'iff(result==1, forall(i,0,N-1, x[i+1]==x[i]))'])
C('checkNegative', 'boxcox.c', {'x': 'in[N]'}, ['N>=0'], ['result==1 or result==0', 'iff(result==1, exists(i,0,N, x[i]<0))'], static=True)
spec('bc(v,l)', 'log(v) if l==0 else expm1(l*log(v))/l')
C('log1p', 'dist.c', {}, ['x>-1'], ['result==log1p(x)'], replay={'x': (-0.999, 5.0)})
C('boxcox_eval', 'boxcox.c', {'x': 'in[N]', 'bxcx': 'out[N]'}, ['N>=0', 'forall(i,0,N, x[i]>0)'],
  ['implies(lambda==0 or abs(lambda)>=1e-16, forall(i,0,N, bxcx[i]==bc(old(x[i]),lambda)))'], alias=[('bxcx', 'x')], replay={'lambda': ('choice', [0.0, 0.5, 1.0, 2.0, -1.0, -0.3, 0.1, 1e-9, 1.7]), 'x': 'pos'})
C('inv_boxcox_eval', 'boxcox.c', {'x': 'in[N]', 'bxcx': 'out[N]'}, ['N>=0', 'forall(i,0,N, 1+lambda*x[i]>0)'],
  ['forall(i,0,N, bxcx[i]==(exp(old(x[i])) if lambda==0 else exp(log1p(lambda*old(x[i]))/lambda)))'], alias=[('bxcx', 'x')], replay={'lambda': ('choice', [0.0, 0.5, 1.0, 2.0, -1.0, -0.3, 0.1, 1e-9, 1.7]), 'x': 'pos'})
C('cl_boxcox_roundtrip', 'cl_boxcox.c', {'x': 'in[N]', 'y': 'out[N]', 'z': 'out[N]'}, ['N>=0', 'lambda==0 or abs(lambda)>=1e-16', 'forall(i,0,N, x[i]>0)'],
  ['forall(i,0,N, z[i]==x[i])'], replay={'lambda': ('choice', [0.0, 0.5, 1.0, 2.0, -1.0, -0.3, 0.1, 1.7]), 'x': 'pos'})
C('boxcox_loglik', 'boxcox.c', inline=True)
C('cl_boxcox_loglik', 'cl_boxcox.c', {'x': 'in[N]'}, ['N>=1', 'forall(i,0,N, x[i]>0)'],
  ['implies(lambda!=0, result==(1-lambda)*sum(i,0,N,log(x[i]))+N/2*log(var(fn(i,pow(x[i],lambda)/lambda),N)))',
   'implies(lambda==0, result==sum(i,0,N,log(x[i]))+N/2*log(var(fn(i,log(x[i])),N)))'], replay={'lambda': ('choice', [0.0, 0.5, 1.0, 2.0, -1.0, -0.3]), 'x': 'pos'})

objspec('funcuni', 'custom_funcuni_set', {'funcuni': 'fn(F)', 'params': 'any'})
# Brent's minimiser: never leaves the bracket, and returns the function value at the point it returns
BI = ['old(a)<=a', 'a<=x[0]', 'x[0]<=b', 'b<=old(b)', 'fx==cb_F(x[0])', 'tol>0', 't2==2*tol', 'm==(a+b)/2', 'tol==fd*abs(x[0])+t']
C('brent_local_min', 'brent.c', {'funcuni': 'obj(funcuni)', 'x': 'out[1]'}, ['a<b', 't>0', 'eps>=0'], ['a<=x[0]', 'x[0]<=b', 'result==cb_F(x[0])'], loops={0: BI},
  cuts={('w', 0): (['0<c', 'c<1', 'a<=x[0]', 'x[0]<=b'], ['c']),
        ('p', 0): (['old(a)<=a', 'a<=x[0]', 'x[0]<=b', 'b<=old(b)', 'fx==cb_F(x[0])', 'tol>0', 't2==2*tol', 'm==(a+b)/2', 'abs(x[0]-m)>t2-(b-a)/2', 'a<b', 't2<b-a'],
                   ['a', 'b', 'm', 'tol', 't2', 'v', 'w', 'fv', 'fw', 'fx', 'e', 'd']),
        ('d', 0): (['q>0', 'p/q<a-x[0]'], ['p', 'q', 'r', 'e']),
        ('fu', 0): (['a<=u', 'u<=b'], ['u', 'd', 'e', 'p', 'q', 'r'])},
  bounded='random quadratic, quartic and oscillating objective functions on brackets within [-10,10]', replay={'a': (-10.0, 0.0), 'b': (0.1, 10.0), 't': (1e-6, 1e-2), 'eps': (0.0, 1e-3)})
C('fminbnd', 'optimc.c', {'funcuni': 'obj(funcuni)'}, ['a<b'], ['a<=result', 'result<=b'])
C('boxcox', 'boxcox.c', {'x': 'in[N]', 'lambda': 'in[1]?', 'y': 'out[N]'}, ['N>=2', 'forall(i,0,N, x[i]!=0)'],
  ['implies(not isnull(lambda), result==lambda[0])', 'implies(isnull(lambda), -2<=result and result<=2)',
   'implies(result==0 or abs(result)>=1e-15, forall(i,0,N, y[i]==bc(x[i],result)))'],
  exits='forall(i,0,N-1, x[i+1]==x[i]) or exists(i,0,N, x[i]<0)', replay={'x': 'pos'})
