import math,sys,os,random,threading,warnings
warnings.filterwarnings('ignore')
HERE=os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0,os.path.dirname(os.path.dirname(HERE))); sys.setrecursionlimit(20000)
import tempfile,shutil,atexit
ST=tempfile.mkdtemp(); atexit.register(shutil.rmtree,ST,True); shutil.copytree(os.path.join(HERE,'pySailingVLM'),os.path.join(ST,'pySailingVLM'))
os.environ['VERIF_REPO']=ST
from sa.kit import *
import sa.prove as prove, numpy as onp, inspect, importlib.util, mpmath
mod=sys.argv[1]+'_s'; import subprocess; subprocess.check_call(['python3',HERE+'/split.py',ST+'/pySailingVLM/%s.py'%sys.argv[1],ST+'/pySailingVLM/%s.py'%mod])
only=sys.argv[2:]
spec=importlib.util.spec_from_file_location('real',ST+'/pySailingVLM/%s.py'%mod); real=importlib.util.module_from_spec(spec); sys.modules['real']=real; spec.loader.exec_module(real)
R=onp.random.RandomState(5)
def inputs():
    r=onp.random.RandomState(5).rand
    d=dict(x=r(5),y=r(5),u=r(3),v=r(3),w=r(3),A=r(3,4),B=r(4,3),S=r(3,3),T=r(2,3,4),F=r(6,3),G=r(6,3),s=float(r()),t=float(r()),k=2,n=3,m=6)
    return d
def go():
    I=Interp(ST) 
    e_cls=[c for n,c in vars(prove).items() if inspect.isclass(c) and hasattr(c,'atom0')][0]
    vals={'pi':math.pi}
    def sym_of(name,a):
        r=onp.empty(a.shape,dtype=object)
        for i in onp.ndindex(*a.shape):
            nm='%s%s'%(name,''.join('_%d'%j for j in i)); s_=sc(nm,rng=None); vals[nm]=float(a[i]); r[i]=s_
        return Arr(r,'f')
    e=None
    def ev(p):
        o=e_cls.__new__(e_cls)
        try: o.__init__(random.Random(1))
        except TypeError: o.__init__(1)
        o.sym=lambda a: mpmath.mpf(vals[a.args[0]])
        return o.any(p)
    from sa.values import SStr, cases
    def pick(a):
        for g,l in cases(a):
            if g is True or bool(ev(g)): return l
        raise ValueError('no case holds')
    def cmp(a,b,path=''):
        """a abstract, b real -> error or None"""
        if isinstance(a,DD) and (has_obj(a) or not isinstance(b,(float,int,onp.generic))):
            # choose the leaf by evaluating
            try: a=pick(a)
            except Exception as x: return path+' pick '+repr(x)
        if isinstance(a,PyList) and isinstance(a.v,DD):
            try: a=PyList(pick(a.v),a.kind)
            except Exception as x: return path+' pick '+repr(x)
        if isinstance(b,(onp.ndarray,)) :
            aa=a.a if isinstance(a,Arr) else onp.array(a,dtype=object)
            if aa.shape!=b.shape: return '%s shape %s %s %s'%(path,aa.shape,b.shape,str(a)[:80])
            for i in onp.ndindex(*b.shape):
                r=cmp(aa[i],b[i],path+str(list(i)))
                if r: return r
            return
        if isinstance(b,onp.generic): b=b.item()
        if isinstance(b,bool):
            v=a if isinstance(a,bool) else None
            if v is None:
                try: v=bool(ev(a)) if not isinstance(a,Cond_t) else bool(cond(a))
                except Exception as x: return path+' bool '+repr(x)+str(a)[:60]
            return None if v==b else '%s %s!=%s'%(path,v,b)
        if isinstance(b,(int,float)):
            if a is None or isinstance(a,(str,SStr)): return '%s %r vs %r'%(path,a,b)
            try: v=float(ev(a)) if not isinstance(a,(int,float)) else float(a)
            except Exception as x: return '%s eval %r %s'%(path,x,str(a)[:80])
            if v==b or abs(v-b)<1e-9*(1+abs(b)): return
            return '%s %r != %r'%(path,v,b)
        if isinstance(b,str):
            return None if str(a)==b or getattr(a,'text',None)==b or (isinstance(a,str) and a==b) else '%s %r != %r'%(path,a,b)
        if b is None: return None if a is None else '%s %r not None'%(path,a)
        if isinstance(b,dict):
            if not isinstance(a,PyDict): return '%s not a dict: %r'%(path,a)
            it=[(k,pick(v) if isinstance(v,DD) else v) for k,v in a.d.items()]
            it=[(k,v) for k,v in it if v is not UNSET]
            if len(it)!=len(b): return '%s dict len'%path
            for (ka,va),(kb,vb) in zip(it,b.items()):
                r=cmp(a.keys.get(ka,ka) if hasattr(a,'keys') and isinstance(a.keys,dict) else ka,kb,path+'.key') or cmp(va,vb,path+'[%r]'%(kb,))
                if r: return r
            return
        if isinstance(b,(list,tuple)):
            try: l=a.v if isinstance(a,PyList) else list(a)
            except Exception:
                try: l=I.iter_plain(a)
                except Exception as x: return '%s not a seq: %r'%(path,a)
            if len(l)!=len(b): return '%s len %d %d'%(path,len(l),len(b))
            for i,(p,q) in enumerate(zip(l,b)):
                r=cmp(p,q,path+'(%d)'%i)
                if r: return r
            return
        return None
    Cond_t=type(None)
    import ast
    ast_src={f.name:ast.unparse(f.body[-1])[:90] for f in ast.parse(open(ST+'/pySailingVLM/%s.py'%mod).read()).body if isinstance(f,ast.FunctionDef)}
    bad=0; okn=0
    for name,f in list(vars(real).items()):
        if not inspect.isfunction(f) or not name.startswith('c') or f.__module__!='real' or not name[1:].replace('_','').isdigit(): continue
        if only and name not in only and name.split('_')[0] not in only: continue
        ins=inputs(); pn=list(inspect.signature(f).parameters)
        try: b=f(*[ins[p] for p in pn])
        except Exception as x: print(name,'REAL FAILS',repr(x)[:100]); continue
        args=[]
        ins=inputs()
        for p in pn:
            a=ins[p]
            if isinstance(a,onp.ndarray): args.append(sym_of(p,a))
            elif isinstance(a,float): vals[p]=a; args.append(sc(p,rng=None))
            else: args.append(a)
        try:
            I.pc=True; I.raises[0]=[]
            fv=I.get('pySailingVLM.%s.%s'%(mod,name))
            a=I.call(fv,args,{})
        except Exception as x:
            import traceback; tb=traceback.extract_tb(x.__traceback__)[-1]
            print(name,'CRASH',repr(x)[:150],tb.name,tb.lineno); bad+=1; continue
        src=ast_src.get(name,'')
        err=None
        if I.raises[0]:
            err='raises '+', '.join('%s %r @%s'%('' ,r[1],r[2]) for r in I.raises[0][:3])
        # element-wise report
        if False:
            try: l=a.v if isinstance(a,PyList) else list(a)
            except Exception: print(name,'BAD result',str(a)[:200],err); bad+=1; continue
            if len(l)!=len(b): print(name,'BAD len'); bad+=1; continue
            for i,(p,q) in enumerate(zip(l,b)):
                r=cmp(p,q)
                if r: print(name,'item',i,r); bad+=1
                else: okn+=1
        else:
            try: r=cmp(a,b)
            except Exception as x: r='CMP '+repr(x)
            if err: r=None if r is None else ''
            if r: print(name,src,'|',r[:200]); bad+=1
            else: okn+=1
        if err: print(name,src,'|',err[:200]); bad+=1
    print('ok',okn,'bad',bad)
threading.stack_size(512*1024*1024); t=threading.Thread(target=go); t.start(); t.join()
