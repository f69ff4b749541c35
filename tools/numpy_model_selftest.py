import sys; sys.path.insert(0,'/verif')
from sa.kit import *
import sa.prove as prove, random
I=Interp('/repo')
import numpy as onp
# numeric self-comparison: evaluate models on symbols vs numpy
def check(f, args, kw={}, sub=None, tol=1e-9):
    syms={}
    rnd=random.Random(3)
    def conv(a):
        if isinstance(a,onp.ndarray):
            r=onp.empty(a.shape,dtype=object)
            for i in onp.ndindex(*a.shape):
                s=sc('z%d'%len(syms), rng=None); syms[s.id if hasattr(s,'id') else len(syms)]=(s,float(a[i])); r[i]=s
            return Arr(r,'f')
        if isinstance(a,float): 
            return P(Q(a).limit_denominator(10**9))
        return a
    aa=[conv(a) for a in args]
    r=I.call_ext(f,aa,dict(kw))
    g=eval(f.replace('numpy','onp'))(*args,**kw)
    def sub(v):
        m={}
        if isinstance(v,(int,bool)): return v
        e=SubstEnv(syms)
        return float(e.any(v))
    rr = r[0] if isinstance(r,tuple) else r
    gg = g[0] if isinstance(g,tuple) else g
    rr = rr.a if isinstance(rr,Arr) else rr
    rr=onp.array(rr,dtype=object); gg=onp.array(gg,dtype=float)
    if rr.shape!=gg.shape: print('BAD shape',f,rr.shape,gg.shape, str(r)[:200]); return
    for i in onp.ndindex(*gg.shape):
        try: v=sub(rr[i])
        except Exception as ex: print('BAD',f,repr(ex),str(rr[i])[:100]); return
        if abs(v-gg[i])>tol*(1+abs(gg[i])): print('BAD value',f,i,v,gg[i]); return
    print('ok',f,kw)
class SubstEnv:
    def __new__(cls,syms):
        import inspect
        e=[c for n,c in vars(prove).items() if inspect.isclass(c) and hasattr(c,'atom0')][0]
        o=e.__new__(e)
        try: o.__init__(random.Random(1))
        except TypeError: o.__init__(1)
        vals={str(s):v for s,v in syms.values()}
        def sy(a):
            import mpmath
            return mpmath.mpf(vals[a.args[0]] if a.args[0] in vals else vals[str(apoly(a))])
        o.sym=sy
        return o
R=onp.random.RandomState(0)
x5=R.rand(5)*3; y5=R.rand(5); x4=R.rand(4); m34=R.rand(3,4); m53=R.rand(5,3); s3=R.rand(3,3)
T=[('numpy.sort',[x5]),('numpy.sort',[m34]),('numpy.sort',[m34],dict(axis=0)),('numpy.argsort',[x4]),('numpy.argmax',[x5]),('numpy.argmin',[m34],dict(axis=1)),
('numpy.median',[x5]),('numpy.median',[x4]),('numpy.median',[m34],dict(axis=0)),('numpy.quantile',[x5,0.3]),('numpy.percentile',[x5,40]),('numpy.percentile',[x5,37.5]),
('numpy.std',[x5]),('numpy.var',[m34],dict(axis=1)),('numpy.std',[x5],dict(ddof=1)),
('numpy.linalg.lstsq',[m53,x5]),('numpy.linalg.lstsq',[m34,x5[:3]]),('numpy.linalg.pinv',[m53]),('numpy.linalg.pinv',[m34]),
('numpy.polyfit',[x5,y5,1]),('numpy.polyfit',[x5,y5,2]),('numpy.polyval',[x4,x5]),('numpy.polyder',[x4]),('numpy.polyint',[x4]),
('numpy.gradient',[x5]),('numpy.gradient',[x5,0.5]),('numpy.gradient',[x5,onp.cumsum(y5)]),('numpy.convolve',[x5,x4]),('numpy.convolve',[x5,s3[0]],dict(mode='same')),('numpy.convolve',[x5,s3[0]],dict(mode='valid')),
('numpy.ediff1d',[x5]),('numpy.kron',[s3,m34]),('numpy.kron',[x4,x5]),('numpy.linalg.matrix_power',[s3,3]),('numpy.exp2',[x5]),('numpy.arcsinh',[x5]),('numpy.arctanh',[x4]),
('numpy.searchsorted',[onp.sort(x5),0.7]),('numpy.digitize',[x4,onp.sort(x5)]),('numpy.vander',[x4]),('numpy.vander',[x4,2],dict(increasing=True)),('numpy.logspace',[0,1,4]),('numpy.geomspace',[1.,8.,4]),('numpy.heaviside',[x4-0.5,0.5]),('numpy.partition',[x5,2]) if 0 else ('numpy.trapezoid',[x5,y5]),
('numpy.cross',[s3,s3[::-1]]),('numpy.outer',[x4,x5]),('numpy.cumsum',[m34],dict(axis=1)),('numpy.ptp',[x5])]
for t in T: check(*t)
