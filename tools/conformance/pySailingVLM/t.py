import numpy as np
import math
import itertools
import functools
import operator
import collections
from collections import namedtuple, deque, OrderedDict, defaultdict, Counter
from dataclasses import dataclass, field, replace, astuple, asdict
from functools import reduce, partial, lru_cache
from itertools import chain, product, combinations, islice, starmap, zip_longest, accumulate, cycle, repeat, groupby
from typing import NamedTuple
from enum import Enum
from contextlib import contextmanager
from types import SimpleNamespace
import copy

# inputs by name: x,y (5,), u,v,w (3,), A (3,4), B (4,3), S (3,3), T (2,3,4), F (6,3), G (6,3), s,t scalars, k=2,n=3,m=6
def c1(x): return np.flatnonzero(np.array([True,False,True,True,False])), np.argwhere(np.array([[1,0],[0,2]])), np.nonzero(np.array([[1,0],[0,2]]))
def c2(x): return x[np.array([True,False,True,True,False])]
def c3(F): 
    m=np.zeros(6,dtype=bool); m[::2]=True
    r=F.copy(); r[m]*=2; r[~m,1]-=1
    return r
def c4(F): return np.split(F,3), np.array_split(F,4), np.vsplit(F,2), np.hsplit(F,3)
def c5(T): return T.transpose(2,0,1), T.swapaxes(0,2), np.moveaxis(T,0,-1), T.T, np.rollaxis(T,2)
def c6(T): return T.reshape(-1,4), T.reshape(2,-1), T.ravel(), T.flatten(), T.reshape((6,4)), T.ravel(order='F'), T.reshape(4,6,order='F')
def c7(A): return A.sum(), A.sum(axis=0), A.sum(1), A.mean(axis=1,keepdims=True), A.max(), A.min(axis=0), A.prod(axis=1), A.std(), A.argmax(), A.argmin(axis=1)
def c8(A,B): return A@B, A.dot(B), np.matmul(A,B), np.einsum('ij,jk->ik',A,B), np.einsum('ij,jk',A,B), np.tensordot(A,B,axes=1), np.tensordot(A,B,axes=([0],[1])), np.inner(A,A)
def c9(F,G): return np.einsum('ij,ij->i',F,G), np.sum(F*G,axis=-1), (F*G).sum(1), np.diag(F@G.T), (F@G.T).diagonal(), np.diagonal(F.dot(G.transpose())), np.array([np.dot(a,b) for a,b in zip(F,G)]), np.fromiter((f@g for f,g in zip(F,G)),dtype=float), list(map(np.dot,F,G)), np.vecdot(F,G) if hasattr(np,'vecdot') and False else 0
def c10(F,G): return np.cross(F,G), np.cross(F,G[0]), np.cross(F[0],G), np.cross(F,G,axis=1), np.cross(F.T,G.T,axisa=0,axisb=0,axisc=0)
def c11(F): return np.linalg.norm(F,axis=1), np.linalg.norm(F), np.linalg.norm(F,axis=1,keepdims=True), np.sqrt((F**2).sum(axis=1)), np.sqrt(np.einsum('ij,ij->i',F,F)), np.apply_along_axis(np.linalg.norm,1,F), np.hypot(F[:,0],F[:,1]), np.linalg.norm(F,axis=0,ord=2), np.linalg.norm(F[0],1), np.linalg.norm(F[0],np.inf)
def c12(u,v): return np.outer(u,v), np.multiply.outer(u,v), u[:,None]*v, u[:,np.newaxis]+v[np.newaxis,:], np.add.outer(u,v), np.subtract.outer(u,v), np.kron(u,v), np.vdot(u,v), np.inner(u,v)
def c13(x): return np.flip(x), x[::-1], np.roll(x,2), np.roll(x,-1), np.diff(x), np.diff(x,n=2), np.diff(x,prepend=0.0), np.ediff1d(x), np.cumsum(x), np.cumprod(x), x.cumsum(), np.insert(x,1,9.), np.delete(x,[0,2]), np.append(x,1.), np.append(x,[1.,2.]), np.r_[0.0,x], np.tile(x,2), np.repeat(x,2), np.pad(x,1), np.pad(x,(1,2),mode='edge'), np.pad(x,1,constant_values=3.0)
def c14(A): return np.tile(A,(2,1)), np.repeat(A,2,axis=0), np.repeat(A,[1,2,0],axis=0), np.flip(A,axis=0), np.flipud(A), np.fliplr(A), np.roll(A,1,axis=0), np.rot90(A), np.insert(A,0,0.,axis=0), np.delete(A,1,axis=1), np.c_[A,A], np.r_[A,A], np.pad(A,((1,0),(0,1)))
def c15(u,v): return np.stack([u,v]), np.stack([u,v],axis=1), np.stack((u,v),-1), np.column_stack([u,v]), np.vstack([u,v]), np.hstack([u,v]), np.concatenate([u,v]), np.dstack([u,v]), np.array([u,v]).T, np.array([[u,v],[v,u]]), np.block([[u,v]]), np.concatenate((u[None],v[None])), np.row_stack([u,v]) if False else 0
def c16(s): return np.linspace(0,s,5), np.linspace(0,1,4,endpoint=False), np.arange(5)*s, np.arange(0.,1.,0.25), np.linspace(0,1,3,retstep=True), np.full(3,s), np.full((2,2),s), np.ones(3)*s, np.eye(3)*s, np.zeros_like(np.ones((2,3))), np.full_like(np.ones(2),s), np.identity(2), np.empty((0,3)), np.tri(3), np.tril(np.ones((3,3))), np.triu(np.ones((3,3)),1)
def c17(A): return A[1], A[-1], A[:,1], A[1:,::2], A[...,0], A[0,...], A[[0,2]], A[[0,2],[1,3]], A[:,[1,0]], A[np.ix_([0,2],[1,3])], A[None], A[:,None,:], A[-2:], A[1:2,:], A[::-1,::-1]
def c18(A):
    A=A.copy(); A[0]=1; A[:,1]=[1.,2.,3.]; A[1:,2:]+=10; A[[0,2],3]=5.; A[-1,-1]*=2
    return A
def c19(A): return np.where(np.array([[True],[False],[True]]),A,0), np.where([1,0,1,0],A,-A), np.select([np.array([1,0,0,0],bool),np.array([0,1,0,0],bool)],[A[0],A[1]],default=7.)
def c20(x): return np.clip(x,0.2,0.7), x.clip(0.3), np.maximum(x,0.5), np.minimum(x,0.5), np.fmax(x,.4), np.abs(-x), np.sign(x-0.5), np.square(x), np.sqrt(x), np.power(x,3), x**-1, x**0.5, np.float_power(x,2), np.reciprocal(x), np.negative(x), np.exp(x), np.log(x+1), np.log1p(x), np.expm1(x), np.sin(x), np.cos(x), np.tan(x), np.arcsin(x), np.arccos(x), np.arctan(x), np.arctan2(x,2.0), np.sinh(x), np.cosh(x), np.tanh(x), np.deg2rad(x), np.rad2deg(x), np.radians(x), np.degrees(x), np.hypot(x,1.), np.cbrt(x), np.log10(x+1), np.log2(x+1), np.floor(x*3), np.ceil(x*3), np.rint(x*3.1), np.round(x,1), np.trunc(x*3), np.mod(x,0.3), np.remainder(x,0.3), np.fmod(x,.3), x//0.3, x%0.3, np.floor_divide(x,.3), np.divide(x,2), np.true_divide(x,2), np.copysign(x,-1.), np.isnan(x), np.isfinite(x), np.exp2(x)
def c21(s,t): return math.sqrt(s), math.hypot(s,t), math.sin(s), math.atan2(s,t), math.pow(s,2), math.exp(s), math.log(s+1), math.log(s+1,10), math.degrees(s), math.radians(s), math.fabs(-s), math.floor(s*5), math.ceil(s*5), math.fsum([s,t]), math.prod([s,t,2]), math.isclose(s,s), math.copysign(1,-s), math.pi, math.tau, math.e, math.dist([s,t],[0,0]), math.inf, math.isinf(s), math.trunc(s*5), math.gcd(6,4), math.factorial(4), math.comb(4,2), math.fmod(s,.3)
def c22(n,k): return n//k, n%k, divmod(7,k), n**k, -n//k, n/k, round(2.5), round(3.14159,2), int(7.9), abs(-n), min(n,k), max([n,k]), sum([n,k]), bool(n), float(n), str(n), n<<1, n>>1, n&1, n|4, n^1, ~n, n==3, 1<n<5, not n, pow(n,2), int('5'), float('1.5'), hex(10), complex(1,2).real
def c23(x): return sorted([3,1,2]), sorted([3,1,2],reverse=True), sorted(['b','a']), list(reversed([1,2,3])), sorted([(2,'a'),(1,'b')],key=lambda p:p[0]), any([False,True]), all([True,False]), list(enumerate(['a','b'],1)), list(zip([1,2],[3,4])), dict(zip('ab',[1,2])), list(map(lambda a:a+1,[1,2])), list(filter(None,[0,1,2])), list(range(5,0,-2)), sum(range(4)), max([1,3,2],key=lambda a:-a), min('b','a'), len('abc'), isinstance(x,np.ndarray), isinstance(1,(int,float)), type(1).__name__, callable(len), list('abc'), tuple([1,2]), set([1,1,2])=={1,2}, [*range(3)], {**{'a':1},'b':2}
def c24(): return 'abc'.upper(), 'A B'.lower(), 'a,b'.split(','), ' a '.strip(), 'abc'.replace('a','x'), '-'.join(['a','b']), 'abc'.startswith('a'), 'abc'.endswith('c'), 'abc'[1], 'abc'[::-1], 'b' in 'abc', 'a'+'b', 'a'*3, f'{3}-{"x"}', '%s-%d'%('a',3), '{}_{}'.format('a',1), '{0}{1}{0}'.format('a','b'), 'abc'.find('c'), 'a_b_c'.rsplit('_',1), 'abc'.title(), 'aXb'.partition('X'), 'abc'.index('b'), 'a.b'.rpartition('.'), f'{1.5:.2f}', f'{7:03d}', f'{"a":>3}', '{:.3f}'.format(2.0), 'x'.isalpha(), '12'.isdigit(), 'abc'.count('a'), 'a-b'.removeprefix('a-'), 'ab'.removesuffix('b'), 'a'.ljust(3), '7'.zfill(3), 'abc'.capitalize(), repr('a'), str([1,2]), 'a\nb'.splitlines()
def c25():
    d={'a':1}; d['b']=2; d.update(c=3); d.update({'d':4}); e=d.pop('a'); d.setdefault('z',[]).append(1); f=d.get('q',9)
    return d,e,f,list(d),list(d.keys()),list(d.values()),list(d.items()),'b' in d,len(d),{k:v for k,v in d.items() if k!='z'}, d|{'b':5}, dict(a=1), dict([('a',1)]), d.popitem(), dict.fromkeys('ab',0)
def c26():
    l=[3,1]; l.append(2); l.extend([5,4]); l.insert(0,9); p=l.pop(); q=l.pop(0); l.sort(); l.reverse(); l.remove(1); l+= [7]; l[0]=8; l[1:2]=[6,6]; del l[0]
    return l,p,q,l.index(6),l.count(6),l.copy(),l*2,l+[1],6 in l,l[-1],l[::2]
def c27():
    def gen(n):
        for i in range(n):
            if i==2: continue
            yield i*i
        yield from [7,8]
    g=gen(4); a=next(g); b=list(g)
    return a,b,sum(x for x in gen(3)), next(iter([5])), next((x for x in [1,2,3] if x>5),None), list(chain([1],[2,3])), list(chain.from_iterable([[1],[2]])), list(product([1,2],'ab')), list(combinations([1,2,3],2)), list(islice(range(10),2,5)), list(accumulate([1,2,3])), list(zip_longest([1,2],[3])), list(starmap(pow,[(2,3)])), list(itertools.repeat(1,3)), list(itertools.permutations([1,2])), list(itertools.pairwise([1,2,3])), list(itertools.takewhile(lambda a:a<2,[1,2,1])), list(itertools.compress([1,2,3],[1,0,1])), [list(g) for k,g in groupby([1,1,2])], list(itertools.count(3,2).__iter__() and islice(itertools.count(3,2),2)), list(islice(cycle([1,2]),3))
def c28(x): return reduce(lambda a,b:a+b,[1,2,3]), reduce(operator.mul,x,1.0), reduce(np.add,[x,x]), partial(pow,2)(3), partial(np.sum,axis=0)(x), operator.itemgetter(1)([1,2]), operator.itemgetter(0,1)([1,2]), operator.add(1,2), operator.sub(x[0],x[1]), operator.neg(3), operator.truediv(1,2)
P=namedtuple('P',['a','b'])
class Q_(NamedTuple):
    a: float
    b: float = 2.0
    @property
    def tot(self): return self.a+self.b
class Col(Enum):
    R='red'; G='green'
@dataclass
class D0:
    a: float
    b: float = 3.0
    c: list = field(default_factory=list)
    d: float = field(init=False,default=0.0)
    def __post_init__(self): self.d=self.a+self.b
    @classmethod
    def make(cls,z): return cls(z,z)
    @staticmethod
    def tw(z): return 2*z
def c29(s):
    p=P(s,2); a,b=p; q=Q_(s); d=D0(s); d2=D0.make(s); d3=replace(d,b=10.)
    return p.a,p[1],a,b,p._replace(a=4),p._asdict(),q.tot,q.b,Col.R.value,Col('green') is Col.G,Col['R'].name,[c.value for c in Col],d.d,d2.d,d3.d,D0.tw(4),astuple(d),asdict(d),d==D0(s),vars(d)['a'],getattr(d,'b'),getattr(d,'zz',5),hasattr(d,'a')
class Base:
    k=3
    def __init__(self,a): self.a=a; self._b=None; self.__p=a*2
    @property
    def b(self):
        if self._b is None: self._b=self.a*10
        return self._b
    @b.setter
    def b(self,v): self._b=v
    @functools.cached_property
    def cc(self): return self.a+1
    def __call__(self,z): return self.a+z
    def __len__(self): return 4
    def __getitem__(self,i): return i*2
    def __add__(self,o): return Base(self.a+o.a)
    def __iter__(self): return iter([1,2])
    def __eq__(self,o): return self.a==o.a
    def __contains__(self,z): return z==1
    def __repr__(self): return 'B'
    def priv(self): return self.__p
class Der(Base):
    def __init__(self,a): super().__init__(a+1); self.z=0
    def priv(self): return super().priv()+1
    def __enter__(self): return self
    def __exit__(self,*e): self.z=1; return False
def c30(s):
    d=Der(s); e=d.b; d.b=7
    with d as w: w.a+=0
    return e,d.b,d.cc,d(2),len(d),d[3],(d+d).a,list(d),1 in d,d.priv(),d.z,d.k,Der.k,type(d).__name__,isinstance(d,Base),issubclass(Der,Base),str(d)
@contextmanager
def cm(l):
    l.append(1)
    try: yield 5
    finally: l.append(2)
def c31():
    l=[]
    with cm(l) as v: l.append(v)
    return l
def c32(x):
    out=[]
    for i,(a,b) in enumerate(zip(x[:-1],x[1:])):
        if i==1: continue
        if i==3: break
        out.append(b-a)
    else: out.append(0)
    i=0
    while True:
        i+=1
        if i>4: break
    else: i=100
    return out,i
def c33(s):
    try:
        r=1/s
        raise ValueError('a')
    except (KeyError,ValueError) as e: r2=str(e)
    else: r2='n'
    finally: r3=1
    return r,r2,r3
def c34(s):
    match 'b':
        case 'a': r=1
        case 'b'|'c': r=2
        case _: r=3
    match (1,s):
        case (0,_): q=0
        case (1,z): q=z
    return r,q
def c35(s):
    f=lambda a,*b,c=2,**d:(a,b,c,d)
    def g(a,b=1,/,c=2,*,d=3): return a,b,c,d
    return f(1,2,3,c=4,e=5),g(1),g(1,2,d=9),(y:=s+1)+y,f(*[1,2],**{'c':3})
def c36(F):
    x,y,z=F.T
    a,*b=[1,2,3]
    (p,q),r=(1,2),3
    first,*_,last=F
    return x,y,z,a,b,p,q,r,first,last
def c37(F,n,k):
    G=F.reshape(k,n,3); return G.sum(axis=(0,2)), G.mean(axis=(0,1)), G[:,::-1].reshape(-1,3), G.max(axis=(1,2)), np.squeeze(G[:1]), np.expand_dims(G,0).shape, G.shape, G.ndim, G.size, len(G), G.dtype==float, np.shape(G), np.size(G,0), np.ndim(G), G.copy(), G.tolist(), G.astype(float), np.atleast_2d(G[0,0]), np.broadcast_to(G[0,0],(2,3)), np.ravel(G), np.asarray(G), np.array(G,copy=True)
def c38(x): return np.interp(0.3,x.cumsum(),x), np.interp([0.1,9.],np.cumsum(x),x), np.average(x,weights=np.arange(5)), np.average(x), np.mean(x), np.trapezoid(x) if hasattr(np,'trapezoid') else 0, np.ptp(x), np.allclose(x,x), np.array_equal(x,x), np.isclose(x,x), np.any(x>5), np.all(x>0), (x>0).all(), (x>5).any(), np.count_nonzero(x>0), np.unique([3,1,1]), np.max(x), np.amin(x), x.max(), np.argmax(x), np.argmin(x), np.sort(x), np.median(x), x.tolist(), x.item(0), float(x[0]), np.sum(x[x>0]), np.nansum(x), np.nan_to_num(x), np.prod(x), x.mean(), x.sum(), x.dot(x), x@x
def c39(S,u): return np.linalg.solve(S,u), np.linalg.inv(S), np.linalg.det(S), np.trace(S), S.trace(), np.linalg.inv(S)@u, S.T, np.linalg.multi_dot([S,S,u]), S@S@u, u@S, np.linalg.matrix_power(S,2), np.diag(u), np.diag(S), np.diagflat(u), np.linalg.lstsq(S,u,rcond=None)[0], np.vstack([S,u]), np.append(S,[u],axis=0), np.linalg.norm(S,'fro')
def c40(A,w):
    out=np.empty_like(A); np.multiply(A,2,out=out); B=np.zeros(A.shape); B+=A; B-=1; B*=A; B/=2; B**=2
    C=A.copy(); C.fill(3.0); np.copyto(C,A); np.add(C,1,out=C); D=np.zeros((3,3)); np.fill_diagonal(D,w); D[np.diag_indices(3)]+=1; E=np.zeros(6); np.add.at(E,[0,0,1],1.0); np.put(E,[5],9.)
    return out,B,C,D,E
def c41(T): return np.einsum('ijk->kji',T), np.einsum('ijk->i',T), np.einsum('ijk,k->ij',T,T[0,0]), np.einsum('ijk,ijk->ij',T,T), np.einsum('...k,k->...',T,T[0,0]), np.einsum('ii',T[0,:,:3]), np.einsum('ii->i',T[0,:,:3]), T@T[0,0], np.tensordot(T,T[0,0],axes=([2],[0])), np.tensordot(T,T[0,0],axes=1), np.dot(T,T[0,0]), np.matmul(T,T[0].T), T.sum((1,2)), np.add.reduce(T,axis=1), np.add.reduce(T[0,0]), np.add.accumulate(T[0,0]), np.multiply.reduce(T[0,0]), np.maximum.reduce(T[0,0])
def c42(x,y): return [a*b for a in x for b in y if True][:3], {i:a for i,a in enumerate(x)}, {1,2}=={2,1}, [[a for a in x[:2]] for _ in range(2)], list(a for a in x), tuple(x[:2]), sum(a*b for a,b in zip(x,y)), max(x), min(x), max(abs(a) for a in x), sorted(x), len(x), abs(x), x<y, x==x, ~(x<y), (x<y)&(x>0), (x<y)|(x>0), np.logical_and(x>0,y>0), np.logical_or(x>0,y>9), np.logical_not(x>0), -x, +x, x*2, 2*x, x/2, 1/x, x-1, 1-x, x**2, 2**x
def c43(s):
    o=SimpleNamespace(a=1,b=s); o.c=3
    dd=defaultdict(list); dd['a'].append(1); ct=Counter('aab'); dq=deque([1,2]); dq.appendleft(0)
    return o.a+o.b+o.c, dict(dd), ct['a'], list(dq), OrderedDict([('a',1)])['a'], copy.deepcopy([1,[2]]), copy.copy({'a':1})
@lru_cache(maxsize=None)
def fib(n): return n if n<2 else fib(n-1)+fib(n-2)
def outer(k):
    c=0
    def inc(z):
        nonlocal c
        c+=z; return c
    inc(k); return inc(k)
def deco(f):
    @functools.wraps(f)
    def w(*a,**k): return f(*a,**k)*2
    return w
@deco
def dbl(a,b=1): return a+b
def c44(s): return fib(8), outer(s), dbl(s), dbl(s,b=3), dbl.__name__, (lambda: s)(), [f() for f in [lambda i=i:i for i in range(2)]]
def c45(x): return np.vectorize(lambda a:a*2)(x), np.apply_along_axis(lambda r:r.sum(),1,np.array([x,x])), np.frompyfunc(lambda a:a+1,1,1)(np.array([1,2])).tolist() if False else 0, np.fromfunction(lambda i,j:i+j,(2,2)), np.meshgrid([1,2],[3,4]), np.mgrid[0:2,0:3], np.ogrid[0:2], np.indices((2,2)), list(np.ndindex(2,2)), [i for i,_ in np.ndenumerate(np.ones((1,2)))], np.nditer if False else 0, np.unravel_index(3,(2,2)), np.ravel_multi_index((1,1),(2,2)), np.take(x,[0,1]), np.take(x,-1), x.take([1]), np.choose([0,1],[x[:2],x[1:3]]), np.compress([True,False],x[:2]), np.extract(np.array([True,False]),x[:2]), np.put_along_axis if False else 0, np.triu_indices(2), np.array(list(x)), np.array([1,2])/2, np.array([1,2],dtype=float), np.float64(1.5), np.int64(3), np.bool_(True)
def c46(x): return x[1:]-x[:-1], (x[1:]+x[:-1])/2, 0.5*(x[:-1]+x[1:]), x[:-1].sum(), x[-1:], x[1:-1], x[:0], np.concatenate(([0],np.cumsum(x))), x[[0,-1]], x[slice(1,3)], x[np.arange(4,-1,-1)], x[np.newaxis].T, x.reshape(-1,1), x[:,None]@x[None,:], np.convolve(x,[.5,.5],'valid')
def c47(F,k):
    jib,main=np.split(F,k); a,b=F[:3],F[3:]
    return jib,main,a,b,[c.sum(axis=0) for c in np.array_split(F,k)], np.concatenate([a,b][::-1]), np.concatenate(np.split(F,3)[::2]), dict(zip('xyz',F[0])), {f'F.{ax}':F[:,i] for i,ax in enumerate('xyz')}, np.vstack(np.split(F,2)), F[:len(F)//2], F[0:int(F.shape[0]/2)], sum(F), np.array([*a,*b]), F.reshape(2,3,3)[::-1], np.swapaxes(F.reshape(2,3,3),0,1).reshape(-1,3)
def c48(s,t): return max(s,t), min(s,t), s if s>t else t, (s>t)*1.0, int(s>t), bool(s>t) and 3 or 4, abs(s-t), s<t<5, sorted([s,t,0.]), round(s,3), divmod(s,0.3), s//0.3, s%0.3, -s%0.3, float(np.clip(s,0,.5)), np.sign(s-t), 0<s, not s>t, s and t, (s or t), [s,t][s>t], {True:1,False:2}[bool(s>t)]
def c49(A): return [r.sum() for r in A], [c.sum() for c in A.T], A.tolist(), sum(map(sum,A)), np.array([[a+1 for a in r] for r in A]), list(zip(*A.tolist())), A.flat[3], [a for a in A.flat][:2], A.nonzero()[0].size, np.array(A.tolist())+1, A.T.copy(), A.squeeze(), A[A>0].size, A.astype(int)*0, A.ravel()[[0,-1]], np.cumsum(A,axis=0), A.any(axis=0), A.all(axis=1), np.ptp(A,axis=0), A.std(axis=0), A.var(axis=1,ddof=1), np.sort(A,axis=1), np.argsort(A,axis=0), np.linalg.norm(A,axis=(0,1))
def c50(F,G): return F-F.mean(axis=0), F/np.linalg.norm(F,axis=1)[:,None], (F.T/np.linalg.norm(F,axis=1)).T, np.divide(F,2.,where=np.ones(F.shape,bool)), F*np.array([1,1,-1]), F@np.diag([1,1,-1]), F+G[0], np.where(F[:,2:3]>0.5,F,-F), np.where((F[:,2]>.5)[:,None],F,G), F[F[:,2]>-1], np.all(F>0,axis=1), np.apply_along_axis(lambda p:np.cross(p,[0,0,1.]),1,F), np.array(list(map(lambda p:p[::-1],F))), np.stack([np.cross(f,g) for f,g in zip(F,G)]), np.sum([f*g for f,g in zip(F,G)],axis=0), np.add(F,G).sum(), np.mean([F,G],axis=0), np.max([F,G],axis=0), np.linalg.norm(F-G,axis=-1)
