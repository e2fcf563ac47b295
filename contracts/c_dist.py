"""pdist.c, dist.c, erfunc.c: densities, distribution functions and quantiles. The special functions (log-gamma, incomplete
gamma and beta, error functions and inverses) are bounded against scipy; the densities and distribution functions built on
them are proved to be the textbook expressions."""
from contracts import Contract as C
from dsl import spec, ufn
try:
    from scipy import special as S, stats as ST
except ImportError: S = ST = None
F = float
XI = 1.79e308
ufn('gLog(x)', 'R', 'R', py=lambda x: F(S.gammaln(x)))
ufn('gam(x)', 'R', 'R', py=lambda x: F(S.gamma(x)))
ufn('pGam(x,a)', 'RR', 'R', py=lambda x, a: F(S.gammainc(a, x)))
ufn('iBet(x,a,b)', 'RRR', 'R', py=lambda x, a, b: F(S.betainc(a, b, x)))
ufn('erfF(x)', 'R', 'R', py=lambda x: F(S.erf(x)))
ufn('erfcF(x)', 'R', 'R', py=lambda x: F(S.erfc(x)))
ufn('erfcxF(x)', 'R', 'R', py=lambda x: F(S.erfcx(x)))
ufn('erfinvF(x)', 'R', 'R', py=lambda x: XI if x == 1 else -XI if x == -1 else F(S.erfinv(x)))
ufn('erfcinvF(x)', 'R', 'R', py=lambda x: XI if x == 0 else -XI if x == 2 else F(S.erfcinv(x)))
ufn('betQ(p,a,b)', 'RRR', 'R', py=lambda p, a, b: F(S.betaincinv(a, b, p)))
ufn('gamQ(p,k)', 'RR', 'R', py=lambda p, k: XI if p == 1 else F(S.gammaincinv(k, p)))
ufn('tQ(p,df)', 'RI', 'R', py=lambda p, df: -XI if p == 0 else XI if p == 1 else F(ST.t.ppf(p, df)))
B = 'random arguments over the usual range, scipy as reference'
PR = lambda rng, d, n: 0
def mix(*fs): return lambda rng: rng.choice(fs)(rng)
import random as _r
_g = _r.Random(7)
def pts(f, n=400): return ('choice', [f(_g) for _ in range(n)])
X1 = pts(lambda g: g.choice([g.uniform(.01, 1), g.uniform(1, 12), g.uniform(12, 170)]))
XL = pts(lambda g: g.choice([g.uniform(.01, 1), g.uniform(.6, 4.2), g.uniform(4, 12), g.uniform(12, 170), g.uniform(170, 1000), 10 ** g.uniform(2, 8)]))
XP = pts(lambda g: 10 ** g.uniform(-3, 2.5)); SH = pts(lambda g: 10 ** g.uniform(-1, 2.3)); SM = pts(lambda g: 10 ** g.uniform(-.5, 2))
U = pts(lambda g: g.choice([0.0, 1.0] + [g.random() for _ in range(30)])); UO = pts(lambda g: g.uniform(0.001, 0.999))
UX = pts(lambda g: g.choice([0.0, 1.0, -0.3, 1.4] + [g.random() for _ in range(20)])); AX = pts(lambda g: g.choice([-1.0] + [10 ** g.uniform(-1, 2) for _ in range(20)]))
NG = 'a<0 or b<0'; XO = 'x<0 or x>1'
C('gamma', 'dist.c', {}, ['x>0', 'x<=170'], ['abs(result-gam(x))<=1e-12*gam(x)'], bounded=B, bounded_runs=400, replay={'x': X1})
C('gamma_log', 'dist.c', {}, ['x>0'], ['result==gLog(x)', 'abs(result-gLog(x))<=1e-12*(1+abs(gLog(x)))'], bounded=B, bounded_runs=400, replay={'x': XL})
C('factorial', 'dist.c', {}, ['N>=1', 'N<=170'], ['abs(result-gam(N+1))<=1e-9*gam(N+1)'], bounded='1 to 60', bounded_runs=60, replay={'N': (1, 60)})
C('pgamma', 'dist.c', {}, ['x>=0'], ['result==(1 if a==0 else 0 if x==0 else pGam(x,a))', 'abs(result-(1 if a==0 else 0 if x==0 else pGam(x,a)))<=1e-11'], exits='a<0', bounded=B, bounded_runs=400, replay={'x': XP, 'a': AX})
C('qgamma', 'dist.c', {}, ['x>=0'], ['result==1-(1 if a==0 else 0 if x==0 else pGam(x,a))'], exits='a<0', replay={'x': XP, 'a': AX})
C('ibeta', 'dist.c', {}, ['a!=0', 'b!=0'], ['result==iBet(x,a,b)', 'abs(result-iBet(x,a,b))<=1e-11'], exits=XO + ' or ' + NG, bounded=B, bounded_runs=400, replay={'x': UX, 'a': AX, 'b': AX})
C('ibetac', 'dist.c', {}, ['a!=0', 'b!=0'], ['result==iBet(1-x,b,a)'], exits=XO + ' or ' + NG, replay={'x': UX, 'a': AX, 'b': AX})
C('beta_log', 'dist.c', {}, ['a!=0', 'b!=0'], ['result==gLog(a)+gLog(b)-gLog(a+b)'], exits=NG, replay={'a': AX, 'b': AX})
C('beta', 'dist.c', {}, ['a!=0', 'b!=0'], ['result==exp(gLog(a)+gLog(b)-gLog(a+b))'], exits=NG, replay={'a': AX, 'b': AX})
spec('xlg(k,x)', '0 if (k==1 or x==0) else (k-1)*log(x)')
spec('betD(x,a,b)', '1.79e308 if ((x==0 and a<1) or (x==1 and b<1)) else 0 if ((x==0 and a>1) or (x==1 and b>1)) else exp(xlg(a,x)+xlg(b,1-x)-(gLog(a)+gLog(b)-gLog(a+b)))')
C('betapdf', 'dist.c', {}, ['a!=0', 'b!=0'], ['result==betD(x,a,b)'], exits=XO + ' or ' + NG, replay={'x': UX, 'a': AX, 'b': AX})
C('ibetad', 'dist.c', {}, ['a!=0', 'b!=0'], ['result==betD(x,a,b)'], exits=XO + ' or ' + NG, replay={'x': UX, 'a': AX, 'b': AX})
C('betacdf', 'dist.c', {}, ['a!=0', 'b!=0'], ['result==min(1,iBet(x,a,b))'], exits=XO + ' or ' + NG, replay={'x': UX, 'a': AX, 'b': AX})
C('betainv', 'dist.c', {}, ['p>0', 'q>0'], ['0<=result and result<=1', 'abs(result-betQ(alpha,p,q))<=1e-5', 'abs(iBet(result,p,q)-alpha)<=1e-4'], exits='alpha<0 or alpha>1', bounded=B, bounded_runs=400, replay={'alpha': UX, 'p': SM, 'q': SM})
C('erf', 'erfunc.c', {}, [], ['result==erfF(x)', 'abs(result-erfF(x))<=1e-13'], bounded=B, bounded_runs=400, replay={'x': (-6.0, 6.0)})
C('erfc', 'erfunc.c', {}, [], ['abs(result-erfcF(x))<=1e-12*erfcF(x)'], bounded=B, bounded_runs=400, replay={'x': (-6.0, 20.0)})
C('erfcx', 'erfunc.c', {}, [], ['abs(result-erfcxF(x))<=1e-12*erfcxF(x)'], bounded=B, bounded_runs=400, replay={'x': (-5.0, 50.0)})
C('erfinv', 'erfunc.c', {}, [], ['result==erfinvF(x)'], exits='x<0-1 or x>1', bounded=B, bounded_runs=400, replay={'x': pts(lambda g: g.choice([-1.0, 1.0, 0.0, 1.5, -2.0, g.uniform(-1, 1), g.uniform(-1, 1), g.uniform(-1, 1), 1 - 10 ** g.uniform(-7, -1), 10 ** g.uniform(-7, -1) - 1]))})
C('erfcinv', 'erfunc.c', {}, [], ['result==erfcinvF(x)'], exits='x<0 or x>2', bounded=B, bounded_runs=400, replay={'x': pts(lambda g: g.choice([0.0, 2.0, 2.5, -1.0, g.uniform(0, 2), g.uniform(0, 2), g.uniform(0, 2), 10 ** g.uniform(-90, -1), 2 - 10 ** g.uniform(-6, -1)]))})
# ---- densities, distribution functions
PI2 = '3.14159265358979323846264338327950288'
SG = {'sigma': ('choice', [0.1, 0.5, 1.0, 1.7, 4.0, -1.0]), 'x': (-4.0, 4.0), 'mu': (-3.0, 3.0)}
C('normalpdf', 'pdist.c', {}, ['sigma!=0'], ['result==exp(0-(x-mu)*(x-mu)/(2*sigma*sigma))/(sqrt(2*%s)*sigma)' % PI2], exits='sigma<0', replay=SG)
C('normalcdf', 'pdist.c', {}, ['sigma!=0'], ['result==0.5*(1+erfF((x-mu)/(sqrt(2)*sigma)))'], exits='sigma<0', replay=SG)
C('normalinv', 'pdist.c', {}, ['p>0 and p<1 or p<0 or p>1'], ['result==mu+sigma*sqrt(2)*erfinvF(2*p-1)'], exits='sigma<0 or p<0 or p>1', replay={**SG, 'p': pts(lambda g: g.choice([-0.2, 1.2] + [g.uniform(0.001, 0.999)] * 8))})
DF = pts(lambda g: g.choice([0, -2] + [g.randint(1, 300) for _ in range(20)])); DQ = pts(lambda g: g.choice([0] + [g.randint(1, 60) for _ in range(8)] + [g.randint(900, 3000) for _ in range(4)]))
C('tpdf', 'pdist.c', {}, [], ['result==exp(gLog((df+1)/2)-gLog(df/2))*pow(1+t*t/df,0-(df+1)/2)/sqrt(%s*df)' % '3.1415926535897932384626434'], exits='df<=0', replay={'t': (-6.0, 6.0), 'df': DF})
spec('tCdf(t,df)', '0.5 if t==0 else (0.5*iBet(df/(df+t*t),df/2,0.5) if t<0 else 1-0.5*iBet(df/(df+t*t),df/2,0.5))')
C('tcdf', 'pdist.c', {}, [], ['result==tCdf(t,df)'], exits='df<=0', replay={'t': (-6.0, 6.0), 'df': DF})
ND = 'num<=0 or den<=0'; FR = {'x': pts(lambda g: g.choice([-1.0, 0.0] + [10 ** g.uniform(-2, 1.3) for _ in range(20)])), 'num': DF, 'den': DF}
C('fcdf', 'pdist.c', {}, [], ['result==(iBet(num*x/(den+num*x),num/2,den/2) if num*x<den else iBet(1-den/(den+num*x),num/2,den/2))'], exits=ND + ' or x<0', replay=FR)
C('fpdf', 'pdist.c', {}, ['x!=0 or num>=2'], ['result==(den*num/((den+num*x)*(den+num*x))*(betD(den/(den+num*x),den/2,num/2) if num*x>den else betD(num*x/(den+num*x),num/2,den/2)))'], exits=ND + ' or x<0', replay=FR)
GR = {'x': pts(lambda g: g.choice([-1.0] + [10 ** g.uniform(-2, 2) for _ in range(20)])), 'k': AX, 'th': AX}
GP = 'exp((k-1)*log(x/th)-x/th-gLog(k))/th'
C('gammapdf', 'pdist.c', {}, [], ['result==(0 if x<0 else 1/th if x==0 else %s)' % GP], exits='k<=0 or th<=0 or (x==0 and k!=1)', replay=GR)
C('gammacdf', 'pdist.c', {}, [], ['result==(0 if x<=0 else pGam(x/th,k))'], exits='k<=0 or th<=0', replay=GR)
CR = {'x': pts(lambda g: g.choice([-1.0, 0.0] + [10 ** g.uniform(-2, 2) for _ in range(20)])), 'df': DF}
C('chipdf', 'pdist.c', {}, [], ['result==(0.5 if x==0 else exp((df/2-1)*log(x/2)-x/2-gLog(df/2))/2)'], exits='df<=0 or x<0 or (x==0 and df!=2)', replay=CR)
C('chicdf', 'pdist.c', {}, [], ['result==(0 if x==0 else pGam(x/2,df/2))'], exits='df<=0 or x<0', replay=CR)
# ---- quantiles
C('gammainv', 'pdist.c', {}, [], ['implies(p<1, abs(result-th*gamQ(p,k))<=1e-7*(1+th*gamQ(p,k)))', 'implies(p==1, result==1.79e308)'], exits='p<0 or p>1 or k<=0 or th<=0', bounded=B, bounded_runs=400, replay={'p': pts(lambda g: g.choice([0.0, 1.0, -0.2, 1.3] + [g.random() for _ in range(20)])), 'k': AX, 'th': AX})
C('chiinv', 'pdist.c', {}, [], ['implies(p<1, abs(result-2*gamQ(p,df/2))<=1e-7*(1+2*gamQ(p,df/2)))', 'implies(p==1, result==1.79e308)'], exits='p<0 or p>1 or df<=0', replay={'p': UX, 'df': DF})
C('finv', 'pdist.c', {}, [], ['implies(p==1, result==1.79e308)', 'implies(p<1, abs(iBet(num*result/(den+num*result),num/2,den/2)-p)<=1e-4)'], exits='p<0 or p>1 or ' + ND, bounded=B, bounded_runs=300, replay={'p': UX, 'num': DQ, 'den': DQ})
C('tinv', 'pdist.c', {}, [], ['implies(p==0, result==0-1.79e308)', 'implies(p==1, result==1.79e308)', 'implies(0<p and p<1, abs(result-tQ(p,df))<=1e-3*(1+abs(tQ(p,df))))'], exits='p<0 or p>1 or df<=0', bounded=B, bounded_runs=400,
  replay={'p': pts(lambda g: g.choice([0.0, 1.0, -0.2, 1.3] + [g.uniform(0.01, 0.99) for _ in range(20)])), 'df': DQ})
