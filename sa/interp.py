"""Interprocedural value-flow analysis of the repository's Python source.

The analysis walks the syntax trees and computes, for every variable, attribute and array element, its value number as a
function of the symbolic inputs.  Both sides of a branch are analysed and merged into gated values at the join (if-conversion:
every store is guarded by the reaching condition), so no path is ever enumerated.  Nothing of the repository is imported
or executed.  Array shapes are concrete (each entry point is analysed for a family of shapes), element values are symbolic.
"""
import ast
import builtins as pybuiltins
import warnings
import os
import time

import numpy as np

from .terms import *
from .values import *


class Unsupported(Exception):
    pass


class GatedIndex(Unsupported):
    """an integer is wanted where different paths have different ones"""

    def __init__(self, v):
        super().__init__('index %r' % (v,))
        self.v = v


def int_like(x):
    return isinstance(x, int) or isinstance(x, Poly) and x.const() is not None and Q(x.const()).denominator == 1


MUTATING = {'append', 'extend', 'insert', 'pop', 'remove', 'clear', 'sort', 'reverse', 'update', 'setdefault', 'popitem', 'add', 'discard', 'fill', 'put',
            'itemset', 'partition', 'resize', 'appendleft', 'popleft', 'rotate'}


COSTLY = set()
LOOP_SECONDS = 30


class Event:
    __slots__ = ('kind', 'pc', 'data', 'loc', 'depth', 'fn')

    def __init__(self, kind, pc, data, loc, fn=None):
        self.kind = kind
        self.pc = pc
        self.data = data
        self.loc = loc
        self.fn = fn

    def __repr__(self):
        return 'Event(%s %r @%s)' % (self.kind, self.data, self.loc)


class Loop:
    __slots__ = ('brk', 'cont')

    def __init__(self):
        self.brk = False
        self.cont = False


class Frame:
    __slots__ = ('fn', 'env', 'module', 'entry', 'ret', 'ret_pc', 'loops', 'globals', 'nonlocals', 'cls', 'yields',
                 'parent', 'qual', 'self_', 'hook')

    def __init__(self, module, entry, parent=None, fn=None, cls=None, qual=''):
        self.fn = fn
        self.env = {}
        self.module = module
        self.entry = entry
        self.ret = UNSET
        self.ret_pc = False
        self.loops = []
        self.globals = set()
        self.nonlocals = set()
        self.cls = cls
        self.yields = None
        self.parent = parent
        self.qual = qual
        self.self_ = None
        self.hook = None


BUILTIN_EXC = {'BaseException': None, 'SystemExit': 'BaseException', 'KeyboardInterrupt': 'BaseException',
               'GeneratorExit': 'BaseException', 'Exception': 'BaseException',
               'ArithmeticError': 'Exception', 'ZeroDivisionError': 'ArithmeticError', 'FloatingPointError': 'ArithmeticError',
               'OverflowError': 'ArithmeticError', 'AssertionError': 'Exception', 'AttributeError': 'Exception',
               'EOFError': 'Exception', 'ImportError': 'Exception', 'ModuleNotFoundError': 'ImportError',
               'LookupError': 'Exception', 'IndexError': 'LookupError', 'KeyError': 'LookupError', 'MemoryError': 'Exception',
               'NameError': 'Exception', 'UnboundLocalError': 'NameError', 'OSError': 'Exception', 'IOError': 'OSError',
               'FileNotFoundError': 'OSError', 'FileExistsError': 'OSError', 'PermissionError': 'OSError',
               'NotADirectoryError': 'OSError', 'IsADirectoryError': 'OSError', 'RuntimeError': 'Exception',
               'NotImplementedError': 'RuntimeError', 'RecursionError': 'RuntimeError', 'StopIteration': 'Exception',
               'SyntaxError': 'Exception', 'TypeError': 'Exception', 'ValueError': 'Exception',
               'UnicodeDecodeError': 'ValueError', 'UnicodeError': 'ValueError', 'Warning': 'Exception',
               'UserWarning': 'Warning', 'DeprecationWarning': 'Warning', 'RuntimeWarning': 'Warning',
               'numpy.linalg.LinAlgError': 'Exception'}

_ast_cache = {}


def parse_file(path):
    st = os.stat(path)
    k = (path, st.st_mtime_ns, st.st_size)
    r = _ast_cache.get(k)
    if r is None:
        with open(path, encoding='utf-8') as f:
            src = f.read()
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            r = ast.parse(src, path)
        _ast_cache[k] = r
    return r


class Interp:
    def __init__(self, repo='/repo', cuts=None):
        self.repo = repo
        self.pc = True
        self.frames = []
        self.modules = {}
        self.raises = [[]]
        self.next_hook = None        # what the next generator called does where it yields (with statements)
        self.events = []
        self.cuts = dict(cuts or {})
        self.importing = 0
        self.owned = {}
        self.steps = None           # functions whose arguments are watched
        self.stepped = {}
        self.touched = {}
        self.keepalive = []
        self.notes = []
        self.loc = None
        self.prov = {}
        self.fnprov = {}
        self.visited = set()
        self.funcs = set()
        self.depth = 0
        self.stmts = 0
        self.exited = []
        self._relmemo = {}
        self.nunk = 0
        self.builtins = {}
        self.ext = {}
        self.extattr = {'typing.TYPE_CHECKING': False}
        self.extmeth = {}
        from . import npmodel, libmodel
        libmodel.install(self)
        npmodel.install(self)

    # ------------------------------------------------------------------------------------------------ conditions
    def rel(self, pc0):
        """current condition relative to an object's or frame's own existence condition"""
        pc = self.pc
        if pc0 is True or pc is True or pc is False:
            return pc
        if pc is pc0:
            return True
        k = (pc.id if isinstance(pc, DD) else pc, pc0.id)
        r = self._relmemo.get(k)
        if r is None:
            r = restrict(pc, pc0)
            self._relmemo[k] = r
        return r

    def gite(self, c, a, b):
        return ite(c, a, b) if not isinstance(c, Opaque) else Opaque('unknown condition')

    def ev(self, kind, **data):
        self.events.append(Event(kind, self.pc, data, self.where(), self.frames[-1].qual if self.frames else None))

    def where(self):
        return self.loc

    def note(self, msg):
        self.notes.append((msg, self.where()))

    def opaque(self, why):
        self.note(why)
        return Opaque('%s at %s' % (why, self.fmtloc(self.where())))

    def fmtloc(self, loc):
        if not loc:
            return '?'
        return '%s:%d' % (os.path.relpath(loc[0], self.repo), loc[1])

    def unkpred(self, why='unknown'):
        self.nunk += 1
        self.note('condition not understood: %s' % why)
        return pred(mk_atom('sym', 'unknown#%d@%s' % (self.nunk, why)))

    def raise_(self, exc):
        if self.pc is False:
            return
        self.raises[-1].append((self.pc, exc, self.where(), self.frames[-1].qual if self.frames else None))
        self.pc = False

    def raise_if(self, cond, exc):
        """raises when cond holds, goes on otherwise"""
        pc = self.pc
        self.pc = g_and(pc, cond)
        self.raise_(exc)
        self.pc = g_and(pc, g_not(cond))

    def raise_b(self, name, *args):
        self.raise_(ExcVal(name, args))
        return UNSET

    def truth(self, v):
        """boolean value of v: bool or gated bool"""
        if isinstance(v, bool):
            return v
        if isinstance(v, DD):
            if has_obj(v):
                v = self.simp(v)
                if isinstance(v, DD):
                    r = False
                    for g, l in cases(v):
                        r = g_or(r, g_and(g, self.truth(l)))
                    return r
                return self.truth(v)
            return self.fixb(lift(lambda x: self.truth(x) if x is not BOT else False, v))
        if v is None or v is UNSET:
            return False
        if v is NAN:
            return True
        if isinstance(v, int):
            return v != 0
        if isinstance(v, Poly):
            return g_not(eq0(v))
        if isinstance(v, str):
            return bool(v)
        if isinstance(v, SStr):
            return any(isinstance(p, str) for p in v.parts) or True
        if isinstance(v, tuple):
            return len(v) > 0
        if isinstance(v, PyList):
            return self.truth(lift(lambda t: len(t) > 0 if isinstance(t, tuple) else t, v.v))
        if isinstance(v, PyDict):
            r = False
            for x in v.d.values():
                r = g_or(r, self.present(x))
            return r
        if isinstance(v, Arr):
            if v.a.size == 1:
                return self.truth(v.a.ravel()[0])
            if v.a.size == 0:
                return False
            self.raise_b('ValueError', 'The truth value of an array with more than one element is ambiguous')
            return False
        if isinstance(v, Opaque):
            return self.unkpred(v.why)
        if isinstance(v, Instance):
            m, _ = v.cls.lookup('__bool__')
            if m is not None:
                return self.truth(self.call(Bound(m, v), [], {}))
            m, _ = v.cls.lookup('__len__')
            if m is not None:
                return self.truth(self.call(Bound(m, v), [], {}))
            return True
        if isinstance(v, ExtObj) and v.kind == 'unknown':
            return self.unkpred('external object')
        return True

    def fixb(self, g):
        """a lift whose leaf function returned gated values"""
        return g

    def present(self, x):
        if x is UNSET:
            return False
        if isinstance(x, DD):
            return lift(lambda l: l is not UNSET and l is not BOT, x)
        return True

    def simp(self, v):
        if isinstance(v, DD):
            if self.pc is not True and self.pc is not False:
                k = ('s', v.id, self.pc.id)
                r = self._relmemo.get(k)
                if r is None:
                    r = restrict(v, self.pc)
                    self._relmemo[k] = r
                v = r
            if isinstance(v, DD):
                ls = [l for l in leaves(v) if l is not BOT]
                if ls and all(isinstance(l, Arr) for l in ls) and len({l.a.shape for l in ls}) == 1:
                    v = self.merge_arr(v, ls)
        return v

    def merge_arr(self, v, ls):
        sh = ls[0].a.shape
        out = np.empty(sh, dtype=object)
        gs = cases(v)
        for idx in np.ndindex(*sh):
            acc = None
            for g, l in gs:
                x = l.a[idx]
                acc = x if acc is None else ite(g, x, acc)
            out[idx] = acc
        return self.mkarr(out, self.join_dt([l.dt for l in ls]))

    def join_dt(self, dts):
        for d in ('O', 'U', 'f', 'i', 'b'):
            if d in dts:
                return d
        return 'f'

    def lift_cases(self, v, fn):
        """apply a (possibly effectful) function to each leaf of a gated value under its guard"""
        v = self.simp(v)
        if not isinstance(v, DD):
            return fn(v)
        pc0 = self.pc
        res = UNSET
        out = False
        first = True
        for g, l in cases(v):
            self.pc = g_and(pc0, g)
            if self.pc is False:
                continue
            if l is UNSET:
                self.raise_b('AttributeError', 'missing value')
                continue
            r = fn(l)
            res = r if first else self.gite(g, r, res)
            first = False
            out = g_or(out, self.pc)
        self.pc = out
        return res

    # ------------------------------------------------------------------------------------------------ allocation
    def mkarr(self, a, dt='f'):
        if not isinstance(a, np.ndarray):
            b = np.empty((), dtype=object)
            b[()] = a
            a = b
        r = Arr(a, dt, self.pc)
        self.alloc(r)
        return r

    def alloc(self, o):
        if self.importing:
            k = root(o.a) if isinstance(o, Arr) else o
            self.own(k, 'module state')
        return o

    def own(self, o, label):
        k = root(o.a) if isinstance(o, Arr) else o
        self.keepalive.append(k)
        self.owned[id(k)] = label

    def owner(self, o):
        k = root(o.a) if isinstance(o, Arr) else o
        return self.owned.get(id(k))

    def touch(self, o, what):
        l = self.owner(o)
        if l is not None and not self.importing:
            self.ev('mutate', label=l, what=what)
        if self.steps is not None:
            self.touched[id(root(o.a) if isinstance(o, Arr) else o)] = (self.loc, self.frames[-1].qual if self.frames else None, what)

    # ---- arguments lent to a step: what they hold when it returns is compared with what they held when it was called
    def reach(self, v, label, out, depth=0):
        if depth > 6:
            return
        if isinstance(v, DD):
            for l in leaves(v):
                self.reach(l, label, out, depth)
        elif isinstance(v, Arr):
            k = root(v.a)
            if id(k) not in out:
                out[id(k)] = (label, k, k.copy())
        elif isinstance(v, PyList):
            if id(v) not in out:
                out[id(v)] = (label, v, v.v)
                for x in self.iter_plain(v) or ():
                    self.reach(x, label + '[]', out, depth + 1)
        elif isinstance(v, PyDict):
            if id(v) not in out:
                out[id(v)] = (label, v, dict(v.d))
                for x in v.d.values():
                    self.reach(x, label + '[]', out, depth + 1)
        elif isinstance(v, (Instance, OpaqueInst)):
            if id(v) not in out:
                out[id(v)] = (label, v, dict(v.attrs))
                for n, x in v.attrs.items():
                    self.reach(x, '%s.%s' % (label, n), out, depth + 1)

    @staticmethod
    def same_value(a, b):
        if a is b:
            return True
        if isinstance(a, (Poly, DD)) or isinstance(b, (Poly, DD)):
            try:
                return same(a, b)
            except Exception:
                return False
        if isinstance(a, (Instance, OpaqueInst, Arr, PyList, PyDict, ExtObj, FuncVal, ClassVal, Bound)) or isinstance(b, (Instance, Arr, PyList, PyDict)):
            return False
        try:
            return type(a) is type(b) and bool(a == b)
        except Exception:
            return False

    def lent_changed(self, lent):
        for label, o, before in lent.values():
            if isinstance(o, np.ndarray):
                if o.shape != before.shape or not all(self.same_value(x, y) for x, y in zip(o.ravel(), before.ravel())):
                    yield label, o
            elif isinstance(o, PyList):
                if o.v is not before and not (isinstance(o.v, tuple) and isinstance(before, tuple) and len(o.v) == len(before)
                                              and all(self.same_value(x, y) for x, y in zip(o.v, before))):
                    yield label, o
            elif isinstance(o, PyDict):
                if len(o.d) != len(before) or not all(k in o.d and self.same_value(o.d[k], v) for k, v in before.items()):
                    yield label, o
            else:
                for n, v in before.items():
                    if n not in o.attrs or not self.same_value(o.attrs[n], v):
                        yield '%s.%s' % (label, n), o

    def mklist(self, items, kind='list'):
        r = PyList(items, self.pc, kind)
        return self.alloc(r)

    def mkdict(self, d=None):
        return self.alloc(PyDict(d, self.pc))

    # ------------------------------------------------------------------------------------------------ modules
    def modpath(self, name):
        p = os.path.join(self.repo, *name.split('.'))
        if os.path.isfile(p + '.py'):
            return p + '.py'
        if os.path.isdir(p):
            q = os.path.join(p, '__init__.py')
            return q if os.path.isfile(q) else p
        return None

    def load(self, name):
        m = self.modules.get(name)
        if m is not None:
            return m
        top = name.split('.')[0]
        if top != 'pySailingVLM' or self.modpath(name) is None:
            return None
        path = self.modpath(name)
        m = ModuleVal(name, path)
        self.modules[name] = m
        m.env['__name__'] = name
        m.env['__file__'] = SStr((('file:' + name,),))
        if path.endswith('.py'):
            tree = parse_file(path)
            fr = Frame(m, True, None, None, None, name)
            fr.env = m.env
            pc, raises, loc = self.pc, self.raises, self.loc
            self.pc, self.raises = True, [[]]
            self.frames.append(fr)
            self.importing += 1
            try:
                self.block(tree.body)
            finally:
                self.importing -= 1
                self.frames.pop()
            if self.raises[0]:
                self.note('import of %s raises %r' % (name, self.raises[0]))
                self.ev('import_error', module=name, exc=self.raises[0])
            self.pc, self.raises, self.loc = pc, raises, loc
        if '.' in name:
            par = self.load(name.rsplit('.', 1)[0])
            if par is not None:
                par.env[name.rsplit('.', 1)[1]] = m
        return m

    def get(self, dotted):
        """repository object by dotted name, e.g. pySailingVLM.solver.coefs.solve_eq"""
        parts = dotted.split('.')
        for i in range(len(parts), 0, -1):
            m = self.load('.'.join(parts[:i])) if self.modpath('.'.join(parts[:i])) else None
            if m is not None:
                o = m
                for p in parts[i:]:
                    if isinstance(o, ModuleVal):
                        if p not in o.env:
                            return None
                        o = o.env[p]
                    elif isinstance(o, ClassVal):
                        o, _ = o.lookup(p)
                        if o is None:
                            return None
                    else:
                        return None
                return o
        return None

    # ------------------------------------------------------------------------------------------------ statements
    def block(self, body):
        for s in body:
            if self.pc is False:
                return
            self.stmt(s)

    def stmt(self, s):
        fr = self.frames[-1]
        self.loc = (fr.module.path, s.lineno)
        self.stmts += 1
        if DEADLINE[0] is not None:
            late()
        self.visited.add((fr.module.path, s.lineno))
        pc0, nf, nr, nl, dep = self.pc, len(self.frames), len(self.raises), len(fr.loops), self.depth
        try:
            getattr(self, 's_' + type(s).__name__)(s, fr)
        except Unsupported as u:
            # a statement the analysis cannot follow: what it assigns or returns is unknown
            del self.frames[nf:]
            self.depth = dep
            for l in self.raises[nr:]:
                self.raises[nr - 1].extend(l)
            del self.raises[nr:], fr.loops[nl:]
            self.pc, self.next_hook = pc0, None
            self.loc = (fr.module.path, s.lineno)
            self.note('statement not understood: %s' % u)
            self.unknown_effects(s, fr, self.opaque(str(u)))

    def unknown_effects(self, s, fr, unk):
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                self.setvar(fr, n.id, unk)
            elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name):
                o = self.lookup(n.value.id, fr, quiet=True)
                if isinstance(o, Instance):
                    self.setattr_(o, self.mangle(n.attr, fr), unk)
            elif isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)):
                self.unknown_contents(n.value, fr, unk)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATING:
                self.unknown_contents(n.func.value, fr, unk)
        if any(isinstance(n, ast.Return) for n in ast.walk(s)):
            fr.ret = unk
            fr.ret_pc = g_or(fr.ret_pc, self.pc)
            if isinstance(s, ast.Return):
                self.pc = False

    def unknown_contents(self, e, fr, unk):
        """the object an expression stands for was changed in a way that is not known"""
        while isinstance(e, ast.Subscript):
            e = e.value
        if isinstance(e, ast.Name):
            o = self.lookup(e.id, fr, quiet=True)
        elif isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name):
            base = self.lookup(e.value.id, fr, quiet=True)
            o = base.attrs.get(self.mangle(e.attr, fr), UNSET) if isinstance(base, Instance) else UNSET
        else:
            return
        if isinstance(o, Arr):
            for i in np.ndindex(*o.a.shape):
                o.a[i] = self.gite(self.rel(o.pc0), unk, o.a[i])
        elif isinstance(o, (PyList, PyDict, ExtObj)):
            if isinstance(e, ast.Name):
                self.setvar(fr, e.id, unk)
            else:
                self.setattr_(base, self.mangle(e.attr, fr), unk)

    def s_Expr(self, s, fr):
        self.expr(s.value)

    def s_Pass(self, s, fr):
        pass

    def s_Import(self, s, fr):
        for a in s.names:
            v = self.import_mod(a.name)
            if a.asname:
                self.setvar(fr, a.asname, v)
            else:
                top = a.name.split('.')[0]
                self.setvar(fr, top, self.import_mod(top))

    def import_mod(self, name):
        if name.split('.')[0] == 'pySailingVLM':
            m = self.load(name)
            if m is None:
                self.raise_b('ModuleNotFoundError', name)
                return UNSET
            return m
        return ExtVal(name)

    def s_ImportFrom(self, s, fr):
        name = s.module or ''
        if s.level:
            base = fr.module.name.split('.')
            if not (fr.module.path or '').endswith('__init__.py'):
                base = base[:-1]
            base = base[:len(base) - (s.level - 1)]
            name = '.'.join(base + ([name] if name else []))
        if name == '__future__':
            return
        if name.split('.')[0] != 'pySailingVLM':
            for a in s.names:
                self.setvar(fr, a.asname or a.name, self.extval(name + '.' + a.name))
            return
        m = self.load(name)
        if m is None:
            self.raise_b('ModuleNotFoundError', name)
            return
        for a in s.names:
            if a.name == '*':
                for k, v in m.env.items():
                    if not k.startswith('_'):
                        self.setvar(fr, k, v)
                continue
            if a.name in m.env:
                v = m.env[a.name]
            else:
                sub = self.load(name + '.' + a.name)
                if sub is None:
                    self.raise_b('ImportError', 'cannot import name %s from %s' % (a.name, name))
                    return
                v = sub
            self.setvar(fr, a.asname or a.name, v)

    def extval(self, name):
        if name in self.extattr:
            v = self.extattr[name]
            return v(self) if callable(v) else v
        return ExtVal(name)

    def s_FunctionDef(self, s, fr):
        f = self.mkfunc(s, fr)
        for d in reversed(s.decorator_list):
            f = self.decorate(d, f, fr)
        self.setvar(fr, s.name, f)

    s_AsyncFunctionDef = s_FunctionDef

    def mkfunc(self, s, fr, name=None):
        a = s.args
        imp = self.importing
        self.importing = imp + 1            # defaults are retained between calls
        defaults = [self.expr(d) for d in a.defaults]
        kwd = {}
        for arg, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                kwd[arg.arg] = self.expr(d)
        self.importing = imp
        nm = name or s.name
        closure = fr if fr.fn is not None or fr.parent is not None else None
        qual = (fr.qual + '.' + nm) if fr.qual else nm
        return FuncVal(s, fr.module, closure, nm, qual, fr.cls, defaults, kwd)

    def decorate(self, d, f, fr):
        name = self.dotted(d.func if isinstance(d, ast.Call) else d, fr)
        if name in ('property', 'builtins.property', 'abc.abstractproperty'):
            return Prop(f)
        if name in ('functools.cached_property',):
            p = Prop(f)
            p.cached = True
            return p
        if name in ('staticmethod',):
            return StaticM(f)
        if name in ('classmethod',):
            return ClassM(f)
        if name in ('abc.abstractmethod', 'abstractmethod'):
            return f
        if isinstance(d, ast.Attribute) and d.attr in ('setter', 'getter', 'deleter'):
            p = self.expr(d.value)
            if isinstance(p, Prop):
                q = Prop(p.fget, p.fset)
                if d.attr == 'setter':
                    q.fset = f
                elif d.attr == 'getter':
                    q.fget = f
                return q
        if name in ('dataclasses.dataclass',):
            return self.make_dataclass(f)
        if name in ('contextlib.contextmanager', 'contextlib.asynccontextmanager') and isinstance(f, FuncVal):
            f.attrs['contextmanager'] = True
            return f
        if name == 'functools.wraps' and isinstance(f, FuncVal) and isinstance(d, ast.Call) and d.args:
            src = self.expr(d.args[0])
            if isinstance(src, FuncVal):
                f.attrs.update(__name__=src.attrs.get('__name__', src.name), __wrapped__=src)
            return f
        if name and (name.startswith('numba.') or name in ('functools.wraps', 'typing.overload', 'typing.final', 'typing.no_type_check')):
            return f
        if name and name.startswith('functools.') and 'cache' in name:
            f.attrs['cached'] = True
            return Prop(f) if name.endswith('cached_property') else f
        dv = self.expr(d)
        if isinstance(dv, (FuncVal, Builtin, Bound, ClassVal)):
            return self.call(dv, [f], {})
        self.note('decorator %s ignored' % name)
        return f

    def dotted(self, node, fr):
        if isinstance(node, ast.Name):
            v = self.lookup(node.id, fr, quiet=True)
            if isinstance(v, ExtVal):
                return v.name
            if isinstance(v, Builtin):
                return v.name
            return node.id
        if isinstance(node, ast.Attribute):
            b = self.dotted(node.value, fr)
            return b + '.' + node.attr if b else None
        if isinstance(node, ast.Call):
            return self.dotted(node.func, fr)
        return None

    def s_ClassDef(self, s, fr):
        bases = [self.expr(b) for b in s.bases]
        c = ClassVal(s.name, (fr.qual + '.' + s.name) if fr.qual else s.name, bases, fr.module)
        c.node = s
        cf = Frame(fr.module, self.pc, fr, None, c, c.qual)
        cf.env = c.attrs
        self.frames.append(cf)
        self.importing += 1
        try:
            for st in s.body:
                if isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                    txt = ast.unparse(st.annotation)
                    c.annots.append((st.target.id, 'ClassVar' in txt))
                self.stmt(st)
        finally:
            self.importing -= 1
            self.frames.pop()
        ext = {b.name for b in c.extbases() if isinstance(b, (ExtVal, Builtin))}
        if ext & ENUMS:
            self.make_enum(c)
        if 'typing.NamedTuple' in ext and any(not isinstance(b, ClassVal) for b in bases):
            names = [n for n, _ in c.annots]
            c.attrs['_fields'] = tuple(names)
            c.attrs['_field_defaults'] = {n: c.attrs.pop(n) for n in names if n in c.attrs}
        v = c
        for d in reversed(s.decorator_list):
            v = self.decorate(d, v, fr)
        self.setvar(fr, s.name, v)

    def make_enum(self, c):
        members, last = [], 0
        for n, v in list(c.attrs.items()):
            if n.startswith('_') or isinstance(v, (FuncVal, Prop, StaticM, ClassM, Builtin, Bound)):
                continue
            if isinstance(v, ExtObj) and v.kind == 'auto':
                v = last + 1
            last = v if isinstance(v, int) else last
            same_ = [m for m in members if self.truth(self.compare('Eq', m.attrs['_value_'], v)) is True]
            if same_:
                c.attrs[n] = same_[0]
                continue
            m = Instance(c, self.pc)
            m.attrs.update(name=n, value=v, _name_=n, _value_=v)
            c.attrs[n] = m
            init, _ = c.lookup('__init__')
            if init is not None:
                self.call(Bound(init, m), list(v) if isinstance(v, tuple) else [v], {})
            members.append(m)
        c.attrs['_members'] = members

    def named_tuple(self, c, args, kw):
        names, dflt = c.attrs['_fields'], c.attrs.get('_field_defaults', {})
        kw = dict(kw)
        if len(args) > len(names) or set(kw) - set(names[len(args):]):
            return self.raise_b('TypeError', '%s() got unexpected arguments' % c.name)
        vals = list(args)
        for n in names[len(args):]:
            if n in kw:
                vals.append(kw[n])
            elif n in dflt:
                vals.append(dflt[n])
            else:
                return self.raise_b('TypeError', '%s() missing argument %s' % (c.name, n))
        return NamedTup.make(c, vals)

    def make_dataclass(self, c):
        fields = []
        for k in reversed(c.mro()):
            own = []
            for name, cv in k.annots:
                if cv:
                    continue
                d = k.attrs.get(name, UNSET)
                fac = None
                init = True
                if isinstance(d, ExtObj) and d.kind == 'field':
                    kw = d.data
                    fac = kw.get('default_factory')
                    init = kw.get('init', True) is not False
                    d = kw.get('default', UNSET)
                    if k is c:
                        if d is UNSET:
                            k.attrs.pop(name, None)
                        else:
                            k.attrs[name] = d
                    k.attrs.setdefault('__dcf__' + name, (d, fac, init))
                elif '__dcf__' + name in k.attrs:
                    d, fac, init = k.attrs['__dcf__' + name]
                elif isinstance(d, (PyList, PyDict, Arr)) and k is c:
                    self.raise_b('ValueError', 'mutable default %s for field %s is not allowed: use default_factory' % (type(d).__name__, name))
                own.append((name, d, fac, init))
            fields = [f for f in fields if f[0] not in [o[0] for o in own]] + own
        c.fields = fields
        return c

    def s_Return(self, s, fr):
        v = self.expr(s.value) if s.value is not None else None
        if self.pc is False:
            return
        r = self.rel(fr.entry)
        fr.ret = v if fr.ret is UNSET else self.gite(r, v, fr.ret)
        fr.ret_pc = g_or(fr.ret_pc, self.pc)
        self.pc = False

    def s_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.setvar(fr, t.id, UNSET)
            elif isinstance(t, ast.Subscript):
                o = self.expr(t.value)
                k = self.index(t.slice)
                if isinstance(o, PyDict):
                    self.touch(o, 'del')
                    kk = dkey(k)
                    if kk in o.d:
                        r = self.rel(o.pc0)
                        o.d[kk] = self.gite(r, UNSET, o.d[kk])
                        if o.d[kk] is UNSET:
                            del o.d[kk]
                elif isinstance(o, PyList) and isinstance(k, int):
                    self.touch(o, 'del')
                    r = self.rel(o.pc0)
                    o.v = self.gite(r, lift(lambda t_: t_[:k] + t_[k:][1:], o.v), o.v)
                else:
                    self.note('del not understood')
            elif isinstance(t, ast.Attribute):
                o = self.expr(t.value)
                self.setattr_(o, t.attr, UNSET)

    def s_Assign(self, s, fr):
        v = self.expr(s.value)
        if self.pc is False:
            return
        for t in s.targets:
            self.assign(t, v, fr)

    def s_AnnAssign(self, s, fr):
        if s.value is not None:
            v = self.expr(s.value)
            if self.pc is not False:
                self.assign(s.target, v, fr)

    def s_AugAssign(self, s, fr):
        op = type(s.op).__name__
        t = s.target
        if isinstance(t, ast.Name):
            old = self.lookup(t.id, fr)
            v = self.expr(s.value)
            self.setvar(fr, t.id, self.iop(op, old, v))
        elif isinstance(t, ast.Attribute):
            o = self.expr(t.value)
            old = self.getattr_(o, self.mangle(t.attr, fr))
            v = self.expr(s.value)
            self.setattr_(o, self.mangle(t.attr, fr), self.iop(op, old, v))
        elif isinstance(t, ast.Subscript):
            o = self.expr(t.value)
            k = self.index(t.slice)
            o = self.simp(o)
            if isinstance(o, Arr) and self.symbolic_mask(k):
                v = self.expr(s.value)
                if self.pc is False or self.masked_store(o, k, v, op):
                    return
                self.setitem(o, k, self.iop(op, self.getitem(o, k), v))
                return
            old = self.getitem(o, k)
            v = self.expr(s.value)
            n = self.iop(op, old, v)
            if self.pc is not False:
                self.setitem(o, k, n)
        else:
            raise Unsupported('augmented assignment')

    def iop(self, op, old, v):
        old = self.simp(old)
        if isinstance(old, Arr) and old.a.ndim >= 0 and isinstance(old, Arr):
            if old.a.ndim == 0:
                return self.binop(op, old, v)
            new = self.binop(op, old, v)
            if isinstance(new, Arr):
                if old.dt in ('i', 'b') and new.dt == 'f' and not (old.dt == 'b' and new.dt == 'b'):
                    self.raise_b('TypeError', 'cannot cast in-place result to integer array')
                    return old
                self.store_arr(old, Ellipsis, new)
                return old
            return new
        if isinstance(old, PyList) and op == 'Add':
            self.list_extend(old, v)
            return old
        if isinstance(old, PyList) and op == 'Mult' and isinstance(v, int):
            self.touch(old, '*=')
            old.v = self.gite(self.rel(old.pc0), lift(lambda t: t * v, old.v), old.v)
            return old
        if isinstance(old, DD) and has_obj(old) and any(isinstance(l, (Arr, PyList)) for l in leaves(old)):
            return self.lift_cases(old, lambda l: self.iop(op, l, v))
        if isinstance(old, PyDict) and op == 'BitOr':
            self.dict_update(old, v)
            return old
        if isinstance(old, Instance):
            m, _ = old.cls.lookup({'Add': '__iadd__', 'Sub': '__isub__', 'Mult': '__imul__'}.get(op, '__none__'))
            if m is not None:
                return self.call(Bound(m, old), [v], {})
        return self.binop(op, old, v)

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            self.setvar(fr, t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            items = self.unpack(v, t.elts)
            if items is None:
                return
            for x, y in zip(t.elts, items):
                self.assign(x.value if isinstance(x, ast.Starred) else x, y, fr)
        elif isinstance(t, ast.Attribute):
            o = self.expr(t.value)
            self.setattr_(o, self.mangle(t.attr, fr), v)
        elif isinstance(t, ast.Subscript):
            o = self.expr(t.value)
            k = self.index(t.slice)
            self.setitem(o, k, v)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, fr)
        else:
            raise Unsupported('assignment target')

    def unpack(self, v, elts):
        v = self.simp(v)
        n = len(elts)
        if isinstance(v, Opaque):
            return [v] * n
        if isinstance(v, DD):
            rows = []
            for g, l in cases(v):
                rows.append((g, self.unpack(l, elts)))
            out = []
            for i in range(n):
                acc = None
                for g, r in rows:
                    if r is None:
                        continue
                    acc = r[i] if acc is None else self.gite(g, r[i], acc)
                out.append(acc)
            return out
        items = self.iter_plain(v)
        if items is None:
            return [self.opaque('unpacking of %r' % (v,))] * n
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        if star:
            i = star[0]
            m = n - i - 1
            if len(items) < n - 1:
                self.raise_b('ValueError', 'not enough values to unpack')
                return None
            return items[:i] + [self.mklist(items[i:len(items) - m])] + items[len(items) - m:]
        if len(items) != n:
            self.raise_b('ValueError', 'wrong number of values to unpack (%d for %d)' % (len(items), n))
            return None
        return items

    def setvar(self, fr, name, v):
        if v is UNSET and self.pc is False:
            return
        self.remember(v)
        name = self.mangle(name, fr)
        if name in fr.globals:
            if not self.importing:
                self.ev('global_write', name=name, module=fr.module.name, value=v)
            env, entry = fr.module.env, True
        elif name in fr.nonlocals:
            p = fr.parent
            while p is not None and name not in p.env:
                p = p.parent
            env, entry = (p or fr).env, (p or fr).entry
        else:
            env, entry = fr.env, fr.entry
        r = self.rel(entry)
        if r is True:
            env[name] = v
        elif r is not False:
            env[name] = self.gite(r, v, env.get(name, UNSET))

    def remember(self, v):
        if isinstance(v, (Poly, DD)):
            self.prov[(type(v).__name__, v.id)] = (self.loc, self.frames[-1].qual if self.frames else '')
        elif isinstance(v, Arr) and v.a.size <= 400:
            for x in v.a.flat:
                if isinstance(x, (Poly, DD)):
                    self.prov.setdefault((type(x).__name__, x.id), (self.loc, self.frames[-1].qual if self.frames else ''))

    def s_If(self, s, fr):
        c = self.truth(self.expr(s.test))
        if self.pc is False:
            return
        self.branch(c, lambda: self.block(s.body), lambda: self.block(s.orelse))

    def branch(self, c, f, g):
        if isinstance(c, DD):
            c = self.simp(c)
        if c is BOT:
            return
        if isinstance(c, Opaque):
            c = self.unkpred(c.why)
        if c is True:
            f()
            return
        if c is False:
            g()
            return
        pc0 = self.pc
        loc = self.loc
        self.pc = g_and(pc0, c)
        p1 = False
        if self.pc is not False:
            f()
            p1 = self.pc
        self.loc = loc
        self.pc = g_and(pc0, g_not(c))
        p2 = False
        if self.pc is not False:
            g()
            p2 = self.pc
        self.pc = g_or(p1, p2)
        if isinstance(self.pc, DD) and isinstance(pc0, DD):
            pass

    def s_While(self, s, fr):
        key = (fr.module.path, s.lineno)
        if key in COSTLY:
            raise Unsupported('a loop with too many alternatives')
        outer = DEADLINE[0]
        if outer is None:
            DEADLINE[0] = time.process_time() + LOOP_SECONDS
        try:
            self.while_loop(s, fr)
        except Late:
            if outer is not None:
                raise
            COSTLY.add(key)
            raise Unsupported('a loop with too many alternatives')
        finally:
            DEADLINE[0] = outer

    def while_loop(self, s, fr):
        lp = Loop()
        fr.loops.append(lp)
        n = 0
        exit_pc = False
        while True:
            n += 1
            if n > 3000:
                self.note('loop bound exceeded')
                self.raise_b('RuntimeError', 'analysis: loop bound exceeded')
                break
            c = self.truth(self.expr(s.test))
            if isinstance(c, DD):
                c = self.simp(c)
            if self.pc is False:
                break
            if c is False or c is BOT:
                exit_pc = g_or(exit_pc, self.pc)
                self.pc = False
                break
            if c is not True:
                exit_pc = g_or(exit_pc, g_and(self.pc, g_not(c)))
                self.pc = g_and(self.pc, c)
                if self.pc is False:
                    break
                if n > 60:
                    self.note('data-dependent loop')
                    self.pc = False
                    break
            self.block(s.body)
            self.pc = g_or(self.pc, lp.cont)
            lp.cont = False
            if self.pc is False:
                break
        fr.loops.pop()
        self.pc = exit_pc
        if s.orelse and self.pc is not False:
            self.block(s.orelse)
        self.pc = g_or(self.pc, lp.brk)

    def s_For(self, s, fr):
        it = self.simp(self.expr(s.iter))
        items = self.iter_items(it)
        if isinstance(it, PyList) and it.once and not any(isinstance(x, (ast.Break, ast.Return)) for x in ast.walk(s)):
            self.consume(it)
        lp = Loop()
        fr.loops.append(lp)
        if items is None:
            self.note('iteration over unknown value')
            items = []
            self.assign_unknown(s, fr)
        skipped = False
        for g, v in items:
            if self.pc is False:
                break
            if g is not True:
                skipped = g_or(skipped, g_and(self.pc, g_not(g)))
                self.pc = g_and(self.pc, g)
                if self.pc is False:
                    break
            self.assign(s.target, v, fr)
            self.block(s.body)
            self.pc = g_or(self.pc, lp.cont)
            lp.cont = False
        fr.loops.pop()
        self.pc = g_or(self.pc, skipped)
        if s.orelse and self.pc is not False:
            self.block(s.orelse)
        self.pc = g_or(self.pc, lp.brk)

    def assign_unknown(self, s, fr):
        """a loop over something unknown: everything it assigns becomes unknown"""
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                self.setvar(fr, n.id, Opaque('assigned in a loop over an unknown value'))

    def s_Break(self, s, fr):
        fr.loops[-1].brk = g_or(fr.loops[-1].brk, self.pc)
        self.pc = False

    def s_Continue(self, s, fr):
        fr.loops[-1].cont = g_or(fr.loops[-1].cont, self.pc)
        self.pc = False

    def s_Global(self, s, fr):
        fr.globals.update(s.names)

    def s_Nonlocal(self, s, fr):
        fr.nonlocals.update(s.names)

    def s_Assert(self, s, fr):
        c = self.truth(self.expr(s.test))
        if self.pc is False:
            return
        self.branch(c, lambda: None, lambda: self.raise_(ExcVal('AssertionError', ())))

    def s_Raise(self, s, fr):
        if s.exc is None:
            cur = fr.env.get('$exc')
            self.raise_(cur if isinstance(cur, ExcVal) else ExcVal('RuntimeError', ()))
            return
        v = self.expr(s.exc)
        if self.pc is False:
            return
        self.raise_(self.as_exc(v))

    def as_exc(self, v):
        if isinstance(v, ExcVal):
            return v
        if isinstance(v, ClassVal):
            return self.instantiate(v, [], {})
        if isinstance(v, Builtin) and v.name in BUILTIN_EXC:
            return ExcVal(v.name, ())
        if isinstance(v, Instance):
            e = ExcVal(v.cls, ())
            return e
        if isinstance(v, ExtVal):
            return ExcVal(v.name, ())
        return ExcVal('Exception', (v,))

    def exc_is(self, e, t):
        """does exception e match handler type value t"""
        if isinstance(t, tuple):
            return any(self.exc_is(e, x) for x in t)
        names = []
        c = e.cls
        if isinstance(c, ClassVal):
            if isinstance(t, ClassVal):
                return t in c.mro()
            for b in c.extbases():
                n = b.name if isinstance(b, (Builtin, ExtVal)) else None
                names.append(n)
        else:
            names.append(c)
        tn = t.name if isinstance(t, (Builtin, ExtVal)) else (t if isinstance(t, str) else None)
        for n in names:
            k = n
            while k is not None:
                if k == tn:
                    return True
                k = BUILTIN_EXC.get(k, 'Exception' if k not in BUILTIN_EXC else None)
        return False

    def s_Try(self, s, fr):
        outer = self.pc
        lst = []
        self.raises.append(lst)
        self.block(s.body)
        if s.orelse and self.pc is not False:
            self.raises.pop()
            n_before = len(self.raises[-1])
            self.block(s.orelse)
        else:
            self.raises.pop()
        normal = self.pc
        out = normal
        rest = list(lst)
        pending = []
        for h in s.handlers:
            if h.type is None:
                t = Builtin('BaseException', None)
            else:
                self.pc = outer
                t = self.expr(h.type)
                if isinstance(t, PyList):
                    t = tuple(t.v)
            mine = [r for r in rest if self.exc_is(r[1], t)]
            rest = [r for r in rest if r not in mine]
            if not mine:
                continue
            pc = False
            exc = None
            for p, e, loc, q in mine:
                pc = g_or(pc, p)
                exc = e if exc is None else self.gite(p, e, exc) if not same(exc, e) else exc
            self.pc = pc
            self.ev('caught', excs=[m[1] for m in mine], pcs=[m[0] for m in mine])
            saved = fr.env.get('$exc', UNSET)
            if h.name:
                self.setvar(fr, h.name, exc)
            fr.env['$exc'] = mine[0][1] if len(mine) == 1 else exc
            lst2 = []
            self.raises.append(lst2)
            self.block(h.body)
            self.raises.pop()
            pending.extend(lst2)
            fr.env['$exc'] = saved
            out = g_or(out, self.pc)
        for r in rest:
            pending.append(r)
        if s.finalbody:
            self.pc = outer
            ret0, retpc0 = fr.ret, fr.ret_pc
            self.block(s.finalbody)
            fin = self.pc
            if fin is False:
                # finally always leaves: pending exceptions are swallowed
                self.ev('swallowed', excs=[r[1] for r in pending])
                pending = []
                out = False
        self.pc = out
        self.raises[-1].extend(pending)

    s_TryStar = s_Try

    def s_With(self, s, fr):
        self.with_item(list(s.items), s.body, fr)

    def with_item(self, items, body, fr):
        """with a, b: body  is  with a: with b: body"""
        if not items:
            self.block(body)
            return
        it = items[0]
        v = self.simp(self.expr(it.context_expr))
        if self.pc is False:
            return

        def inner(e):
            if it.optional_vars is not None:
                self.assign(it.optional_vars, e, fr)
            self.with_item(items[1:], body, fr)
        if isinstance(v, ExtObj) and v.kind == 'ctxgen':
            self.with_generator(v, inner)
            return
        e = v
        ex = None
        if isinstance(v, Instance):
            m, _ = v.cls.lookup('__enter__')
            if m is not None:
                e = self.call(Bound(m, v), [], {})
            ex, _ = v.cls.lookup('__exit__')
        elif isinstance(v, ExtObj):
            h = self.extmeth.get((v.kind, '__enter__'))
            if h:
                e = h(self, v, [], {})
        if isinstance(v, ExtObj) and v.kind == 'suppress':
            lst = []
            self.raises.append(lst)
            inner(e)
            self.raises.pop()
            for r in lst:
                if any(self.exc_is(r[1], t) for t in v.data['types']):
                    self.events.append(Event('caught', r[0], dict(excs=[r[1]], pcs=[r[0]]), self.loc))
                    self.pc = g_or(self.pc, r[0])
                else:
                    self.raises[-1].append(r)
        elif ex is not None:
            self.guarded(lambda: inner(e), lambda exc: self.call(
                Bound(ex, v), [None] * 3 if exc is None else [exc.cls if isinstance(exc.cls, ClassVal) else self.builtins.get(exc.cls), exc,
                                                              Opaque('traceback')], {}))
        else:
            inner(e)

    def guarded(self, body, leave):
        """body, then leave(exception or None) on every way out of it; a true result of leave(exception) suppresses the exception"""
        pc0 = self.pc
        lst = []
        self.raises.append(lst)
        body()
        self.raises.pop()
        normal, raised = self.pc, False
        for r in lst:
            raised = g_or(raised, r[0])
        out = False
        for r in lst:
            self.pc = r[0]
            sup = self.truth(leave(r[1]))
            if self.pc is False:
                continue
            on, gone = g_and(self.pc, g_not(sup)), g_and(self.pc, sup)
            if on is not False:
                self.raises[-1].append((on,) + tuple(r[1:]))
            if gone is not False:
                self.events.append(Event('caught', gone, dict(excs=[r[1]], pcs=[gone]), self.loc))
                out = g_or(out, gone)
        self.pc = g_and(pc0, g_not(raised))
        if self.pc is not False:
            leave(None)
        self.pc = g_or(g_and(self.pc, normal), out)

    def with_generator(self, v, inner):
        """with a @contextmanager function: the body runs where the generator yields"""
        frames = list(self.frames)
        state = dict(left=False, ran=False)

        def at_yield(value):
            if state['ran']:
                raise Unsupported('context manager yields more than once')
            state['ran'] = True
            here, gen = self.pc, self.frames
            lst = []
            self.frames = frames[:]
            self.raises.append(lst)
            inner(value)
            self.raises.pop()
            self.frames = gen
            raised = False
            for r in lst:
                raised = g_or(raised, r[0])
            back = g_and(here, g_not(raised))
            state['left'] = g_and(back, g_not(self.pc))          # left the body by return, break or continue
            self.pc = back
            self.raises[-1].extend(lst)
        self.next_hook = at_yield
        self.call_func(v.data['fn'], v.data['args'], v.data['kw'], False)
        self.next_hook = None
        self.pc = g_and(self.pc, g_not(state['left']))

    s_AsyncWith = s_With

    def s_Match(self, s, fr):
        subj = self.expr(s.subject)
        done = False
        pc0 = self.pc
        out = False
        remaining = True

        def go(i):
            if i >= len(s.cases):
                return
            cs = s.cases[i]
            c = self.match_pat(cs.pattern, subj, fr)
            if cs.guard is not None and c is not False:
                c = g_and(c, self.truth(self.expr(cs.guard)))
            self.branch(c, lambda: self.block(cs.body), lambda: go(i + 1))
        go(0)

    def match_pat(self, p, v, fr):
        if isinstance(p, ast.MatchValue):
            return self.truth(self.compare('Eq', v, self.expr(p.value)))
        if isinstance(p, ast.MatchSingleton):
            return self.truth(self.compare('Is', v, p.value))
        if isinstance(p, ast.MatchAs):
            c = True if p.pattern is None else self.match_pat(p.pattern, v, fr)
            if p.name:
                self.setvar(fr, p.name, v)
            return c
        if isinstance(p, ast.MatchOr):
            c = False
            for q in p.patterns:
                c = g_or(c, self.match_pat(q, v, fr))
            return c
        if isinstance(p, ast.MatchSequence):
            v = self.simp(v)
            if isinstance(v, DD):
                raise Unsupported('match of a gated value')
            if isinstance(v, Opaque):
                return self.unkpred(v.why)
            if isinstance(v, PyList) and isinstance(v.v, DD):
                raise Unsupported('match of a gated list')
            if not (isinstance(v, tuple) or isinstance(v, PyList) and v.kind == 'list'):
                return False
            xs, star = self.iter_plain(v), [i for i, q in enumerate(p.patterns) if isinstance(q, ast.MatchStar)]
            if not star and len(xs) != len(p.patterns) or star and len(xs) < len(p.patterns) - 1:
                return False
            c = True
            i = star[0] if star else len(p.patterns)
            tail = p.patterns[i + 1:]
            for q, x in list(zip(p.patterns[:i], xs)) + (list(zip(tail, xs[len(xs) - len(tail):])) if tail else []):
                c = g_and(c, self.match_pat(q, x, fr))
            if star and p.patterns[i].name:
                self.setvar(fr, p.patterns[i].name, self.mklist(xs[i:len(xs) - len(tail)]))
            return c
        if isinstance(p, ast.MatchMapping):
            v = self.simp(v)
            if not isinstance(v, PyDict):
                if isinstance(v, (Opaque, DD, ExtObj)):
                    raise Unsupported('match of an unknown mapping')
                return False
            c = True
            for k, q in zip(p.keys, p.patterns):
                kk = self.expr(k)
                has = self.truth(self.compare('In', kk, v))
                if has is False:
                    return False
                c = g_and(c, has)
                c = g_and(c, self.match_pat(q, drop_unset(v.d.get(dkey(kk), UNSET)), fr))
            if p.rest:
                raise Unsupported('match **rest')
            return c
        if isinstance(p, ast.MatchClass):
            cls = self.expr(p.cls)
            c = self.truth(self.call(self.builtins['isinstance'], [v, cls], {}))
            if c is False:
                return False
            if isinstance(cls, Builtin) and len(p.patterns) == 1 and not p.kwd_attrs:
                return g_and(c, self.match_pat(p.patterns[0], v, fr))
            names = list(p.kwd_attrs)
            pats = list(p.kwd_patterns)
            if p.patterns:
                ma = cls.lookup('__match_args__')[0] if isinstance(cls, ClassVal) else None
                if ma is None and isinstance(cls, ClassVal) and cls.fields is not None:
                    ma = tuple(f[0] for f in cls.fields)
                if ma is None and isinstance(cls, ClassVal):
                    ma = cls.lookup('_fields')[0]
                if not isinstance(ma, tuple):
                    raise Unsupported('class pattern')
                names = list(ma[:len(p.patterns)]) + names
                pats = list(p.patterns) + pats
            for n, q in zip(names, pats):
                x = self.getattr0(self.simp(v), n)
                if x is UNSET:
                    return False
                c = g_and(c, self.match_pat(q, x, fr))
            return c
        raise Unsupported('match pattern')

    # ------------------------------------------------------------------------------------------------ expressions
    def expr(self, e):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            return self.opaque('expression %s' % type(e).__name__)
        return m(e, self.frames[-1])

    def e_Constant(self, e, fr):
        v = e.value
        if isinstance(v, float):
            return const(Q(repr(v)))
        if isinstance(v, complex):
            return self.opaque('complex number')
        if v is Ellipsis:
            return Ellipsis
        if isinstance(v, bytes):
            return v.decode('latin1')
        return v

    def e_Name(self, e, fr):
        return self.lookup(e.id, fr)

    def lookup(self, name, fr, quiet=False):
        if fr.cls is not None and name.startswith('__') and not name.endswith('__'):
            name = '_%s%s' % (fr.cls.name.lstrip('_'), name)
        f = fr
        while f is not None:
            if name in f.env and name not in f.globals:
                if f is fr or f.fn is not None or f.cls is None or f.fn is None and f.cls is None:
                    v = f.env[name]
                    if isinstance(v, DD) and has_obj(v):
                        v = self.simp(v)
                        if isinstance(v, DD) and any(l is UNSET for l in leaves(v)):
                            pass
                    if v is UNSET:
                        if quiet:
                            return None
                        return self.raise_b('UnboundLocalError', name)
                    return v
            f = f.parent
        if name in fr.module.env:
            v = fr.module.env[name]
            if v is not UNSET:
                if isinstance(v, DD) and has_obj(v):
                    v = self.simp(v)
                return v
        if name in self.builtins:
            return self.builtins[name]
        if quiet:
            return None
        if hasattr(pybuiltins, name):
            return self.opaque('no model of %s' % name)
        return self.raise_b('NameError', name)

    def mangle(self, attr, fr):
        if fr.cls is not None and attr.startswith('__') and not attr.endswith('__'):
            return '_%s%s' % (fr.cls.name.lstrip('_'), attr)
        return attr

    def e_Attribute(self, e, fr):
        o = self.expr(e.value)
        if self.pc is False:
            return UNSET
        return self.getattr_(o, self.mangle(e.attr, fr))

    def e_Subscript(self, e, fr):
        o = self.expr(e.value)
        k = self.index(e.slice)
        if self.pc is False:
            return UNSET
        return self.getitem(o, k)

    def index(self, s):
        if isinstance(s, ast.Tuple):
            return tuple(self.index(x) for x in s.elts)
        if isinstance(s, ast.Slice):
            return SliceVal(*(self.expr(x) if x is not None else None for x in (s.lower, s.upper, s.step)))
        return self.expr(s)

    def e_Slice(self, e, fr):
        return SliceVal(*(self.expr(x) if x is not None else None for x in (e.lower, e.upper, e.step)))

    def e_Tuple(self, e, fr):
        return tuple(self.starred(e.elts))

    def e_List(self, e, fr):
        return self.mklist(self.starred(e.elts))

    def e_Set(self, e, fr):
        return self.mkset(self.starred(e.elts))

    def mkset(self, items):
        out = []
        seen = set()
        for x in items:
            k = dkey(x)
            if k not in seen:
                seen.add(k)
                out.append(x)
        return self.mklist(out, 'set')

    def starred(self, elts):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.iter_plain(self.expr(x.value))
                if v is None:
                    out.append(self.opaque('starred element'))
                else:
                    out.extend(v)
            else:
                out.append(self.expr(x))
        return out

    def e_Dict(self, e, fr):
        d = self.mkdict()
        for k, v in zip(e.keys, e.values):
            if k is None:
                self.dict_update(d, self.expr(v))
            else:
                kk = self.expr(k)
                d.d[dkey(kk)] = self.expr(v)
                d.keys[dkey(kk)] = kk
        return d

    def e_BinOp(self, e, fr):
        a = self.expr(e.left)
        b = self.expr(e.right)
        if self.pc is False:
            return UNSET
        return self.binop(type(e.op).__name__, a, b)

    def e_UnaryOp(self, e, fr):
        v = self.expr(e.operand)
        if self.pc is False:
            return UNSET
        op = type(e.op).__name__
        if op == 'Not':
            return g_not(self.truth(v))
        return self.unop(op, v)

    def unop(self, op, v):
        v = self.simp(v) if isinstance(v, DD) and has_obj(v) else v
        if op == 'USub':
            if isinstance(v, int):
                return -v
            if isinstance(v, Arr):
                return self.map1(lambda x: self.sneg(x), v, 'i' if v.dt in ('i', 'b') else v.dt)
            if isinstance(v, Instance):
                m, _ = v.cls.lookup('__neg__')
                if m is not None:
                    return self.call(Bound(m, v), [], {})
            if isinstance(v, (Poly, DD)) and not has_obj(v):
                return self.sneg(v)
        elif op == 'UAdd':
            return v
        elif op == 'Invert':
            if isinstance(v, Arr) and v.dt == 'b':
                return self.map1(lambda x: g_not(self.truth(x)), v, 'b')
            if isinstance(v, bool) or (isinstance(v, DD) and not has_obj(v)):
                return g_not(v) if not isinstance(v, bool) else ~v
            if isinstance(v, int):
                return ~v
        if isinstance(v, DD):
            return self.lift_cases(v, lambda l: self.unop(op, l))
        if isinstance(v, Opaque):
            return v
        if isinstance(v, (str, type(None), PyList, PyDict, tuple)):
            return self.raise_b('TypeError', 'bad operand type for unary operator')
        return self.opaque('unary %s on %r' % (op, v))

    def sneg(self, x):
        if isinstance(x, int):
            return -x
        return lift(lambda l: -l if isinstance(l, int) else pscale(l, -1) if isinstance(l, Poly) else l, x)

    def e_BoolOp(self, e, fr):
        isand = isinstance(e.op, ast.And)

        def go(i):
            v = self.expr(e.values[i])
            if i == len(e.values) - 1 or self.pc is False:
                return v
            c = self.truth(v)
            if isinstance(c, DD):
                c = self.simp(c)
            if c is BOT:
                return v
            if isinstance(c, Opaque):
                c = self.unkpred(c.why)
            if c is True:
                return go(i + 1) if isand else v
            if c is False:
                return v if isand else go(i + 1)
            pc0 = self.pc
            self.pc = g_and(pc0, c if isand else g_not(c))
            r = go(i + 1)
            skip = g_and(pc0, g_not(c) if isand else c)
            self.pc = g_or(self.pc, skip)
            if isinstance(v, (bool, DD)) and not has_obj(v) and (isinstance(r, (bool,)) or isinstance(r, DD) and not has_obj(r)) \
                    and self.isbool(v) and self.isbool(r):
                return g_and(v, r) if isand else g_or(v, r)
            return self.gite(c, r, v) if isand else self.gite(c, v, r)
        return go(0)

    def isbool(self, v):
        return isinstance(v, bool) or isinstance(v, DD) and all(isinstance(l, bool) or l is BOT for l in leaves(v))

    def e_Compare(self, e, fr):
        left = self.expr(e.left)
        res = None
        for i, (op, r) in enumerate(zip(e.ops, e.comparators)):
            right = self.expr(r)
            if self.pc is False:
                return UNSET
            c = self.compare(type(op).__name__, left, right)
            if len(e.ops) == 1:
                return c
            c = self.truth(c)
            res = c if res is None else g_and(res, c)
            if res is False:
                return False
            left = right
        return res

    def e_IfExp(self, e, fr):
        c = self.truth(self.expr(e.test))
        res = []
        if isinstance(c, DD):
            c = self.simp(c)
        self.branch(c, lambda: res.append((True, self.expr(e.body))), lambda: res.append((False, self.expr(e.orelse))))
        if not res:
            return UNSET
        if len(res) == 1:
            return res[0][1]
        return self.gite(c, res[0][1], res[1][1])

    def e_Call(self, e, fr):
        # super() without arguments
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and not e.args:
            f = fr
            while f is not None and f.self_ is None:
                f = f.parent
            return Super(fr.cls, f.self_ if f else None)
        f = self.expr(e.func)
        if self.pc is False:
            return UNSET
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.expr(a.value)
                it = self.iter_plain(v)
                if it is None:
                    args.append(self.opaque('starred argument'))
                else:
                    args.extend(it)
            else:
                args.append(self.expr(a))
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.simp(self.expr(k.value))
                if isinstance(d, PyDict):
                    for kk, vv in d.d.items():
                        kw[d.keys.get(kk, kk)] = vv
                elif isinstance(d, (Opaque, ExtObj)):
                    kw['**'] = d
                else:
                    kw['**'] = self.opaque('double-starred argument %r' % (d,))
            else:
                kw[k.arg] = self.expr(k.value)
        if self.pc is False:
            return UNSET
        loc = self.loc
        self.callnode = e
        r = self.call(f, args, kw)
        self.loc = loc
        return r

    def e_Lambda(self, e, fr):
        return self.mkfunc(e, fr, '<lambda>')

    def e_JoinedStr(self, e, fr):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.expr(v.value)
                spec = self.expr(v.format_spec) if v.format_spec is not None else ''
                parts.append(self.to_str(x, spec, v.conversion))
        return self.gated_str(parts)

    def gated_str(self, parts):
        for i, p in enumerate(parts):
            if isinstance(p, Opaque):
                return p
            if isinstance(p, DD):
                return self.lift_cases(p, lambda l, i=i: self.gated_str(parts[:i] + [l] + parts[i + 1:]))
        return mkstr(parts)

    def to_str(self, x, spec='', conv=-1):
        x = self.simp(x) if isinstance(x, DD) else x
        if isinstance(x, (str, SStr)) and not spec and conv not in (114, 97):
            return x
        if isinstance(x, str):
            try:
                return repr(x) if conv in (114, 97) and not spec else format(x, spec)
            except (ValueError, TypeError):
                pass
        if isinstance(x, (Instance, NamedTup)) and isinstance(x.cls, ClassVal):
            for nm in (['__repr__'] if conv in (114, 97) else ['__format__', '__str__', '__repr__']):
                m, _ = x.cls.lookup(nm)
                if m is not None:
                    return self.call(Bound(m, x), [spec] if nm == '__format__' else [], {})
            if '_members' in x.cls.attrs:
                return '%s.%s' % (x.cls.name, x.attrs['_name_'])
        if isinstance(x, ExcVal) and len(x.args) == 1 and isinstance(x.args[0], (str, SStr)) and not spec:
            return x.args[0]
        if isinstance(x, (tuple, PyList)) and not spec and isinstance(x if isinstance(x, tuple) else x.v, tuple):
            xs = x if isinstance(x, tuple) else x.v
            ts = [self.to_str(y, '', 114) for y in xs]
            if all(isinstance(t, str) for t in ts) and (isinstance(x, tuple) or x.kind == 'list') and type(x) is not NamedTup:
                return '(%s%s)' % (', '.join(ts), ',' if len(ts) == 1 else '') if isinstance(x, tuple) else '[%s]' % ', '.join(ts)
        if isinstance(x, bool) or x is None or isinstance(x, int):
            try:
                return format(x, spec if isinstance(spec, str) else '') if x is not None and not isinstance(x, bool) else str(x)
            except ValueError:
                return str(x)
        if isinstance(x, Poly) and x.const() is not None and isinstance(spec, str):
            try:
                return format(float(x.const()), spec)
            except ValueError:
                pass
        if isinstance(x, DD):
            x = self.simp(x)
            if isinstance(x, DD) and all(isinstance(l, (str, SStr, int)) for l in leaves(x)):
                return self.lift_cases(x, lambda l: self.to_str(l, spec, conv))
        return SStr((('fmt', dkey(x) if isinstance(x, Poly) else id(x), spec if isinstance(spec, str) else '?'),))

    def e_FormattedValue(self, e, fr):
        return self.to_str(self.expr(e.value))

    def e_Starred(self, e, fr):
        return self.expr(e.value)

    def e_NamedExpr(self, e, fr):
        v = self.expr(e.value)
        self.setvar(fr, e.target.id, v)
        return v

    def e_Await(self, e, fr):
        return self.expr(e.value)

    def e_Yield(self, e, fr):
        v = self.expr(e.value) if e.value is not None else None
        f = fr
        while f.yields is None and f.parent is not None:
            f = f.parent
        if f.hook is not None:
            f.hook(v)
            return None
        f.yields.append((self.rel(f.entry), v))
        return None

    def e_YieldFrom(self, e, fr):
        for g, v in self.iter_items(self.expr(e.value)) or []:
            fr.yields.append((g_and(self.rel(fr.entry), g), v))
        return None

    # comprehensions
    def compr(self, e, fr, emit):
        f = Frame(fr.module, self.pc, fr, fr.fn or True, fr.cls, fr.qual)
        f.fn = fr.fn if fr.fn is not None else 'comp'
        f.self_ = fr.self_
        self.frames.append(f)

        def go(i):
            if i == len(e.generators):
                emit()
                return
            g = e.generators[i]
            it = self.simp(self.expr(g.iter))
            items = self.iter_items(it)
            self.consume(it)
            if items is None:
                self.note('comprehension over unknown value')
                raise Unsupported('comprehension over unknown value')
            pcs = False
            for gd, v in items:
                if self.pc is False:
                    break
                pc0 = self.pc
                self.pc = g_and(self.pc, gd)
                skip = g_and(pc0, g_not(gd)) if gd is not True else False
                if self.pc is not False:
                    self.assign(g.target, v, f)
                    ok = True
                    for c in g.ifs:
                        t = self.truth(self.expr(c))
                        if isinstance(t, DD):
                            t = self.simp(t)
                        skip = g_or(skip, g_and(self.pc, g_not(t)))
                        self.pc = g_and(self.pc, t)
                        if self.pc is False:
                            break
                    if self.pc is not False:
                        go(i + 1)
                self.pc = g_or(self.pc, skip)
        try:
            go(0)
        except Unsupported as u:
            self.frames.pop()
            return False
        self.frames.pop()
        return True

    def e_ListComp(self, e, fr):
        pc0 = self.pc
        out = []
        ok = self.compr(e, fr, lambda: out.append((self.rel(pc0), self.expr(e.elt))))
        if not ok:
            return self.opaque('comprehension')
        return self.gated_list(out)

    def gated_list(self, out, kind='list'):
        if all(g is True for g, _ in out):
            return self.mklist([v for _, v in out], kind)
        acc = ()
        for g, v in out:
            acc = lift(lambda t, g=g, v=v: ite(g, t + (v,), t), acc) if not isinstance(acc, tuple) else ite(g, acc + (v,), acc)
        return self.mklist(acc, kind)

    def e_GeneratorExp(self, e, fr):
        return self.once(self.e_ListComp(e, fr))

    def once(self, r):
        """r is an iterator"""
        if isinstance(r, PyList):
            r.once = True
        return r

    def consume(self, v, n=None):
        """the items of the iterator v (all of them, or the first n) have been taken"""
        if isinstance(v, PyList) and v.once and self.pc is not False:
            rest = () if n is None else lift(lambda t: t[n:] if isinstance(t, tuple) else t, v.v)
            v.v = self.gite(self.rel(v.pc0), rest, v.v)

    def e_SetComp(self, e, fr):
        r = self.e_ListComp(e, fr)
        if isinstance(r, PyList) and isinstance(r.v, tuple):
            return self.mkset(r.v)
        return r

    def e_DictComp(self, e, fr):
        pc0 = self.pc
        out = []
        ok = self.compr(e, fr, lambda: out.append((self.rel(pc0), self.expr(e.key), self.expr(e.value))))
        if not ok:
            return self.opaque('comprehension')
        d = self.mkdict()
        for g, k, v in out:
            kk = dkey(k)
            d.d[kk] = v if g is True else self.gite(g, v, d.d.get(kk, UNSET))
            d.keys[kk] = k
        return d

    # ------------------------------------------------------------------------------------------------ iteration
    def iter_items(self, v):
        """list of (guard, value) or None"""
        v = self.simp(v)
        if isinstance(v, PyList):
            if isinstance(v.v, tuple):
                return [(True, x) for x in v.v]
            ts = leaves(v.v)
            n = max(len(t) for t in ts if isinstance(t, tuple))
            out = []
            for i in range(n):
                g = lift(lambda t: isinstance(t, tuple) and len(t) > i, v.v)
                x = lift(lambda t: t[i] if isinstance(t, tuple) and len(t) > i else BOT, v.v)
                x = drop_bot(x)
                out.append((g, x))
            return out
        if isinstance(v, DD):
            rows = [(g, self.iter_items(l)) for g, l in cases(v)]
            if any(r is None for _, r in rows):
                return None
            n = max(len(r) for _, r in rows)
            out = []
            for i in range(n):
                gg = False
                x = None
                for g, r in rows:
                    if i < len(r):
                        gg = g_or(gg, g_and(g, r[i][0]))
                        x = r[i][1] if x is None else self.gite(g, r[i][1], x)
                out.append((gg, x))
            return out
        if isinstance(v, PyDict) and any(isinstance(x, DD) for x in v.d.values()):
            return [(self.present(x), v.keys[k]) for k, x in v.d.items()]
        it = self.iter_plain(v)
        return None if it is None else [(True, x) for x in it]

    def iter_plain(self, v):
        v = self.simp(v)
        if isinstance(v, tuple):
            return list(v)
        if isinstance(v, PyList):
            if isinstance(v.v, tuple):
                return list(v.v)
            return None
        if isinstance(v, Arr):
            if v.a.ndim == 0:
                self.raise_b('TypeError', 'iteration over a 0-d array')
                return []
            return [self.getitem(v, i) for i in range(v.a.shape[0])]
        if isinstance(v, str):
            return list(v)
        if isinstance(v, PyDict):
            return [v.keys[k] for k in v.d]
        if isinstance(v, range):
            return list(v)
        if isinstance(v, ClassVal) and '_members' in v.attrs:
            return list(v.attrs['_members'])
        if isinstance(v, Instance):
            m, _ = v.cls.lookup('__iter__')
            if m is not None:
                r = self.simp(self.call(Bound(m, v), [], {}))
                return None if r is v or isinstance(r, Instance) else self.iter_plain(r)
            if v.cls.lookup('__getitem__')[0] is None and not [b for b in v.cls.extbases() if getattr(b, 'name', '') not in PLAIN]:
                self.raise_b('TypeError', 'object is not iterable')
                return []
        if isinstance(v, ExtObj):
            h = self.extmeth.get((v.kind, '__iter__'))
            if h is not None:
                return self.iter_plain(h(self, v, [], {}))
        if v is None or isinstance(v, (int, Poly)):
            self.raise_b('TypeError', 'object is not iterable')
            return []
        return None

    # ------------------------------------------------------------------------------------------------ calls
    def call(self, f, args, kw):
        f = self.simp(f)
        if isinstance(f, DD):
            return self.lift_cases(f, lambda l: self.call(l, list(args), dict(kw)))
        if isinstance(f, FuncVal):
            return self.call_func(f, args, kw)
        try:
            return self.call_(f, args, kw)
        except GatedIndex as g:
            return self.by_case(g, lambda: self.call(f, list(args), dict(kw)))

    def by_case(self, g, fn):
        """what needs an integer, once for each value the integer has on the paths that come here"""
        v = self.simp(g.v)
        if not isinstance(v, DD):
            return self.opaque(str(g))
        pc0 = self.pc

        def one(l):
            if self.pc == pc0:
                return self.opaque(str(g))
            return fn()
        return self.lift_cases(v, one)

    def call_(self, f, args, kw):
        if isinstance(f, Bound):
            if isinstance(f.fn, Builtin):
                return f.fn.fn(self, [f.self_] + list(args), kw)
            if isinstance(f.fn, (FuncVal,)):
                return self.call_func(f.fn, [f.self_] + list(args), kw)
            return self.call(f.fn, [f.self_] + list(args), kw)
        if isinstance(f, Builtin):
            if f.name in BUILTIN_EXC:
                return ExcVal(f.name, tuple(args))
            return f.fn(self, list(args), kw)
        if isinstance(f, ClassVal):
            return self.instantiate(f, args, kw)
        if isinstance(f, ExtVal):
            return self.call_ext(f.name, args, kw)
        if isinstance(f, Opaque):
            self.ev('opaque_call', what=f.why, args=args, kw=kw)
            return f
        if isinstance(f, Instance):
            m, _ = f.cls.lookup('__call__')
            if m is not None:
                return self.call(Bound(m, f), args, kw)
        if isinstance(f, ExtObj):
            h = self.extmeth.get((f.kind, '__call__'))
            if h:
                return h(self, f, args, kw)
            r = ExtObj('unknown', {'src': '%s()' % f.data.get('src', f.kind), '@via': f, '@args': list(args), '@kw': dict(kw)})
            self.ev('extobj_call', obj=f, args=args, kw=kw, ret=r)
            return r
        if isinstance(f, StaticM):
            return self.call(f.fn, args, kw)
        if f is UNSET:
            return UNSET
        if f is None or isinstance(f, (int, str, Poly, Arr, tuple, PyList, PyDict)):
            return self.raise_b('TypeError', 'object is not callable')
        return self.opaque('call of %r' % (f,))

    def call_ext(self, name, args, kw):
        h = self.cuts.get(name) or self.ext.get(name)
        if h is not None:
            try:
                return h(self, list(args), dict(kw))
            except GatedIndex as g:
                return self.by_case(g, lambda: self.call_ext(name, args, kw))
            except (Unsupported, IndexError, KeyError, TypeError, ValueError, AttributeError, NotImplementedError) as u:
                if isinstance(u, Unsupported):
                    return self.opaque('%s: %s' % (name, u))
                return self.opaque('%s not modelled for these arguments (%s: %s)' % (name, type(u).__name__, u))
        if name.startswith(('numpy.random', 'random.', 'secrets.', 'uuid.', 'time.', 'datetime.')):
            self.ev('impure', fn=name)
        top = name.split('.')[0]
        r = ExtObj('unknown', {'src': name + '()', '@via': name, '@args': list(args), '@kw': dict(kw)})
        self.ev('ext_call', name=name, args=args, kw=kw, ret=r)
        if top in ('numpy', 'math', 'scipy'):
            return self.opaque('no model of %s' % name)
        return r

    def bind(self, f, args, kw):
        a = f.node.args
        env = {}
        names = [x.arg for x in a.posonlyargs + a.args]
        kw = dict(kw)
        star = kw.pop('**', None)
        if len(args) > len(names) and a.vararg is None:
            self.raise_b('TypeError', '%s() takes %d positional arguments but %d were given' % (f.name, len(names), len(args)))
            return None
        for n, v in zip(names, args):
            env[n] = v
        if a.vararg is not None:
            env[a.vararg.arg] = tuple(args[len(names):])
        pos = {x.arg for x in a.posonlyargs}
        kwonly = [x.arg for x in a.kwonlyargs]
        extra = {}
        for k, v in kw.items():
            if (k in names and k not in pos) or k in kwonly:
                if k in env:
                    self.raise_b('TypeError', '%s() got multiple values for argument %s' % (f.name, k))
                    return None
                env[k] = v
            elif a.kwarg is not None:
                extra[k] = v
            else:
                self.raise_b('TypeError', '%s() got an unexpected keyword argument %s' % (f.name, k))
                return None
        if a.kwarg is not None:
            env[a.kwarg.arg] = self.mkdict(extra)
        nd = len(f.defaults)
        for i, n in enumerate(names):
            if n not in env or env[n] is UNSET:
                j = i - (len(names) - nd)
                d = f.defaults[j] if j >= 0 else UNSET
                if d is UNSET:
                    if star is not None:
                        env[n] = Opaque('unknown keyword arguments')
                        continue
                    self.raise_b('TypeError', '%s() missing required argument %s' % (f.name, n))
                    return None
                env[n] = d
            elif isinstance(env[n], DD) and j_default(f, names, i) is not None and any(l is UNSET for l in leaves(env[n])):
                d = j_default(f, names, i)
                env[n] = lift(lambda l: d if l is UNSET else l, env[n])
        for n in kwonly:
            if n not in env:
                if n in f.kwdefaults:
                    env[n] = f.kwdefaults[n]
                else:
                    self.raise_b('TypeError', '%s() missing keyword-only argument %s' % (f.name, n))
                    return None
        return env

    def call_func(self, f, args, kw, ctx=True):
        if ctx and f.attrs.get('contextmanager'):
            return ExtObj('ctxgen', dict(fn=f, args=list(args), kw=dict(kw)), self.pc)
        cut = self.cuts.get(f.qual)
        if cut is not None:
            r = cut(self, f, list(args), dict(kw))
            if r is not NotImplemented:
                return r
        if self.depth > 120:
            return self.opaque('recursion too deep in %s' % f.name)
        self.funcs.add(f.qual)
        env = self.bind(f, args, kw)
        if env is None:
            return UNSET
        if f.attrs.get('cached'):
            self.ev('cached_call', fn=f.qual)
            for v in env.values():
                if isinstance(v, (Arr, PyDict)) or isinstance(v, PyList) and v.kind != 'tuple':
                    return self.raise_b('TypeError', 'unhashable argument of a cached function')
            key = tuple((n, self.hashkey(v)) for n, v in sorted(env.items()))
            memo = f.attrs.setdefault('memo', {})
            if key in memo:
                return memo[key][0]
            r = self.run_func(f, args, env)
            if self.pc is True or self.rel(True) is True:
                memo[key] = (r, tuple(env.values()))
            return r
        return self.run_func(f, args, env)

    @staticmethod
    def hashkey(v):
        if isinstance(v, (Poly, DD)):
            return (type(v).__name__, v.id)
        if isinstance(v, SStr):
            return v.key()
        if isinstance(v, (int, str, bool, type(None))):
            return (type(v).__name__, v)
        if isinstance(v, tuple):
            return tuple(Interp.hashkey(x) for x in v)
        return ('obj', id(v))

    def run_func(self, f, args, env):
        if self.steps is not None and f.qual in self.steps and not self.importing:
            lent = {}
            method = f.cls is not None and args and isinstance(args[0], (Instance, OpaqueInst))
            self.stepped[f.qual] = self.stepped.get(f.qual, 0) + 1
            for n, v in list(env.items()):
                if method and v is args[0]:
                    continue
                self.reach(v, n, lent)
            if lent:
                loc0 = self.loc
                try:
                    return self.call_body(f, args, env)
                finally:
                    for label, o in self.lent_changed(lent):
                        t = self.touched.get(id(o))
                        self.ev('mutate_arg', fn=f.qual, label=label, where=t)
        return self.call_body(f, args, env)

    def call_body(self, f, args, env):
        fr = Frame(f.module, self.pc, f.closure, f, f.cls, f.qual)
        fr.env = env
        if args:
            fr.self_ = args[0]
        node = f.node
        loc = self.loc
        self.depth += 1
        self.frames.append(fr)
        try:
            if isinstance(node, ast.Lambda):
                fr.qual = f.qual
                v = self.expr(node.body)
                return v
            gen = is_generator(node)
            if gen:
                fr.yields = []
                fr.hook, self.next_hook = self.next_hook, None
            self.block(node.body)
            # falling off the end returns None
            if gen:
                self.pc = g_or(self.pc, fr.ret_pc)
                return self.once(self.gated_list(fr.yields))
            if self.pc is not False:
                r = self.rel(fr.entry)
                fr.ret = None if fr.ret is UNSET else self.gite(r, None, fr.ret)
            self.pc = g_or(self.pc, fr.ret_pc)
            if self.pc is False:
                return UNSET
            return fr.ret
        finally:
            self.frames.pop()
            self.depth -= 1
            self.loc = loc

    def instantiate(self, c, args, kw):
        cut = self.cuts.get(c.qual)
        if cut is not None:
            r = cut(self, c, list(args), dict(kw))
            if r is not NotImplemented:
                return r
        exts = [b.name for b in c.extbases() if isinstance(b, (ExtVal, Builtin))]
        if c.lookup('_fields')[1] is not None and c.fields is None and isinstance(c.lookup('_fields')[0], tuple):
            k = c.lookup('_fields')[1]
            t = self.named_tuple(k, args, kw)
            return t if t is UNSET else NamedTup.make(c, t)
        if '_members' in c.attrs and len(args) == 1 and not kw:
            pc, r = self.pc, UNSET
            for m in c.attrs['_members']:
                hit = self.truth(True if args[0] is m else self.compare('Eq', m.attrs['_value_'], args[0]))
                g = self.simp(g_and(self.pc, hit))
                if g is not False:
                    r = m if r is UNSET else self.gite(hit, m, r)
                self.pc = g_and(self.pc, g_not(hit))
            if self.pc is not False:
                self.raise_b('ValueError', '%s is not a valid %s' % (args[0], c.name))
            self.pc = pc if r is not UNSET else False
            if self.raises[-1] and self.pc is not False:
                for q in self.raises[-1]:
                    self.pc = g_and(self.pc, g_not(q[0]))
            return self.simp(r)
        if any(n in BUILTIN_EXC for n in exts):
            e = ExcVal(c, tuple(args))
            m, _ = c.lookup('__init__')
            if m is not None:
                self.call(Bound(m, e), args, kw)
            return e
        o = Instance(c, self.pc)
        self.alloc(o)
        if c.fields is not None and c.lookup('__init__')[0] is None:
            self.dc_init(c, o, args, kw)
        else:
            m, _ = c.lookup('__init__')
            if m is not None:
                self.call(Bound(m, o), args, kw)
            elif args or kw:
                if not [n for n in exts if n not in PLAIN]:
                    self.raise_b('TypeError', '%s() takes no arguments' % c.name)
        return o

    def dc_init(self, c, o, args, kw):
        kw = dict(kw)
        star = kw.pop('**', None)
        init = [f for f in c.fields if f[3]]
        if len(args) > len(init):
            self.raise_b('TypeError', 'too many arguments for %s' % c.name)
            return
        vals = {}
        for f, v in zip(init, args):
            vals[f[0]] = v
        for k, v in kw.items():
            if k not in [f[0] for f in init] or k in vals:
                self.raise_b('TypeError', '%s() got an unexpected keyword argument %s' % (c.name, k))
                return
            vals[k] = v
        for name, d, fac, ini in c.fields:
            if name in vals and vals[name] is not UNSET:
                v = vals[name]
                if isinstance(v, DD) and any(l is UNSET for l in leaves(v)):
                    dv = d if d is not UNSET else self.call(fac, [], {}) if fac is not None else UNSET
                    v = lift(lambda l: dv if l is UNSET else l, v)
                o.attrs[name] = v
            elif fac is not None:
                o.attrs[name] = self.call(fac, [], {})
            elif d is not UNSET:
                if ini:
                    o.attrs[name] = d
            elif ini:
                if star is not None:
                    o.attrs[name] = Opaque('unknown keyword arguments')
                    continue
                self.raise_b('TypeError', '%s() missing required argument %s' % (c.name, name))
                return
        m, _ = c.lookup('__post_init__')
        if m is not None:
            self.call(Bound(m, o), [], {})

    # ------------------------------------------------------------------------------------------------ attributes
    def getattr_(self, o, name, default=None, has_default=False):
        if isinstance(o, DD):
            o = self.simp(o)
            if isinstance(o, DD):
                return self.lift_cases(o, lambda l: self.getattr_(l, name, default, has_default))
        v = self.getattr0(o, name)
        if v is UNSET:
            if has_default:
                return default
            if o is UNSET:
                return UNSET
            return self.raise_b('AttributeError', '%r object has no attribute %s' % (o, name))
        if isinstance(v, DD) and has_obj(v):
            v = self.simp(v)
            if isinstance(v, DD) and any(l is UNSET for l in leaves(v)):
                g = lift(lambda l: l is UNSET, v)
                if has_default:
                    return lift(lambda l: default if l is UNSET else l, v)
                res = []
                self.branch(g, lambda: self.raise_b('AttributeError', '%r object has no attribute %s' % (o, name)), lambda: None)
                v = self.simp(v)
        return v

    def getattr0(self, o, name):
        """attribute value or UNSET"""
        if isinstance(o, Instance):
            if name in o.attrs:
                d, _ = o.cls.lookup(name)
                if not isinstance(d, Prop):
                    return o.attrs[name]
            d, c = o.cls.lookup(name)
            if d is None and c is None:
                m, _ = o.cls.lookup('__getattr__')
                if m is not None:
                    return self.call(Bound(m, o), [name], {})
                if name == '__class__':
                    return o.cls
                if name == '__dict__':
                    return self.mkdict(o.attrs)
                if hasattr(object, name) or [b for b in o.cls.extbases() if getattr(b, 'name', '') not in PLAIN]:
                    return self.opaque('no model of %s.%s' % (o.cls.name, name))
                return UNSET
            return self.bindattr(d, o, o.cls)
        if isinstance(o, OpaqueInst):
            if name in o.attrs:
                return o.attrs[name]
            if o.cls is not None:
                d, c = o.cls.lookup(name)
                if c is not None:
                    return self.bindattr(d, o, o.cls)
            if o.on_missing is not None:
                v = o.on_missing(name)
                if v is not None:
                    o.attrs[name] = v
                    return v
            return UNSET
        if isinstance(o, ClassVal):
            d, c = o.lookup(name)
            if c is not None:
                if isinstance(d, StaticM):
                    return d.fn
                if isinstance(d, ClassM):
                    return Bound(d.fn, o)
                return d
            if name in ('__name__', '__qualname__'):
                return o.name
            if name == '__members__' and '_members' in o.attrs:
                return self.mkdict({m.attrs['name']: m for m in o.attrs['_members']})
            if name == '_make' and o.lookup('_fields')[1] is not None:
                return Builtin('_make', lambda I, a, k: NamedTup.make(o, I.iter_plain(a[0])))
            if name == '__module__':
                return o.module.name
            if name == '__doc__':
                return None
            if hasattr(type, name) or [b for b in o.extbases() if getattr(b, 'name', '') not in PLAIN]:
                return self.opaque('no model of %s.%s' % (o.name, name))
            return UNSET
        if isinstance(o, Super):
            c0 = o.obj.cls if isinstance(o.obj, (Instance, ExcVal)) else o.obj
            d, c = c0.lookup(name, after=o.cls)
            if c is not None:
                return self.bindattr(d, o.obj, c0)
            if name in ('__init__', '__post_init__', '__init_subclass__', '__setattr__'):
                return Builtin('noop', lambda I, a, k: None)
            return UNSET
        if isinstance(o, ModuleVal):
            if name in o.env:
                return o.env[name]
            sub = self.load(o.name + '.' + name) if self.modpath(o.name + '.' + name) else None
            if sub is not None:
                return sub
            if name == '__name__':
                return o.name
            if name == '__dict__':
                return self.mkdict(o.env)
            return UNSET
        if isinstance(o, ExtVal):
            n = o.name + '.' + name
            if n in self.extattr:
                v = self.extattr[n]
                return v(self) if callable(v) else v
            return ExtVal(n)
        if isinstance(o, Arr):
            return self.arr_attr(o, name)
        if isinstance(o, Opaque):
            return o
        if isinstance(o, ExcVal):
            if name == 'args':
                return tuple(o.args)
            if name in o.attrs:
                return o.attrs[name]
            if isinstance(o.cls, ClassVal):
                d, c = o.cls.lookup(name)
                if c is not None:
                    return self.bindattr(d, o, o.cls)
            if name == 'code' and o.cls == 'SystemExit':
                return o.args[0] if o.args else None
            return Opaque('exception attribute')
        if isinstance(o, ExtObj):
            h = self.extmeth.get((o.kind, name))
            if h is not None:
                return Bound(Builtin(name, lambda I, a, k, h=h: h(I, a[0], a[1:], k)), o)
            h = self.extattr.get((o.kind, name))
            if h is not None:
                return h(self, o)
            if name in o.data:
                return o.data[name]
            return ExtObj('unknown', {'src': '%s.%s' % (o.data.get('src', o.kind), name), '@of': o, '@attr': name})
        if isinstance(o, FuncVal):
            if name in o.attrs:
                return o.attrs[name]
            if name in ('__name__', '__qualname__'):
                return o.name
            if name in ('py_func',):
                return o
            if name == '__module__':
                return o.module.name
            if name in ('__doc__', '__wrapped__'):
                return None
            if hasattr(real_type, name):
                return self.opaque('no model of function.%s' % name)
            return UNSET
        if isinstance(o, Bound):
            return self.getattr0(o.fn, name)
        if isinstance(o, NamedTup) and isinstance(o.cls, ClassVal):
            names = o.cls.lookup('_fields')[0] or ()
            if name in names:
                return o[names.index(name)]
            d, c = o.cls.lookup(name)
            if name == '_asdict':
                return Builtin(name, lambda I, a, k: I.mkdict(dict(zip(names, o))))
            if name == '_replace':
                def replace(I, a, k):
                    if set(k) - set(names):
                        return I.raise_b('ValueError', 'unexpected field names')
                    return NamedTup.make(o.cls, [k.get(n, x) for n, x in zip(names, o)])
                return Builtin(name, replace)
            if name == '__class__':
                return o.cls
            if c is not None:
                return self.bindattr(d, o, o.cls)
        h = self.meth(o, name)
        if h is not None:
            return h
        if isinstance(o, Builtin):
            h = self.extattr.get(('builtin', o.name, name))
            if h is not None:
                return Builtin(name, h)
            if name in ('__name__', '__qualname__'):
                return o.name
            t = {'str': 'str', 'list': 'list', 'dict': 'dict'}.get(o.name)
            if t is not None and (t, name) in self.methods:
                return Builtin(name, lambda I, a, k: I.call(I.getattr_(a[0], name), list(a[1:]), k))       # str.upper(x)
        t = real_type(o)
        if t is not None and hasattr(t, name):
            return self.opaque('no model of %s.%s' % (t.__name__, name))
        return UNSET

    def meth(self, o, name):
        t = ('str' if isinstance(o, (str, SStr)) else 'list' if isinstance(o, PyList) and o.kind == 'list' else
             'set' if isinstance(o, PyList) else 'dict' if isinstance(o, PyDict) else 'tuple' if isinstance(o, tuple) else
             'num' if isinstance(o, (int, Poly)) else None)
        if t is None:
            return None
        h = self.methods.get((t, name))
        if h is None:
            if t == 'num':
                h = self.methods.get(('num', name))
            if h is None:
                return None
        if getattr(h, 'is_value', False):
            return h(self, o)
        return Bound(Builtin(name, lambda I, a, k, h=h: h(I, a[0], a[1:], k)), o)

    def bindattr(self, d, o, cls):
        if isinstance(d, FuncVal):
            return Bound(d, o)
        if isinstance(d, Prop):
            if d.fget is None:
                return UNSET
            return self.call(d.fget, [o], {})
        if isinstance(d, StaticM):
            return d.fn
        if isinstance(d, ClassM):
            return Bound(d.fn, cls)
        return d

    def setattr_(self, o, name, v):
        if self.pc is False:
            return
        self.remember(v)
        if isinstance(o, DD):
            o = self.simp(o)
            if isinstance(o, DD):
                self.lift_cases(o, lambda l: self.setattr_(l, name, v))
                return
        if isinstance(o, (Instance, OpaqueInst)):
            if o.cls is not None:
                d, _ = o.cls.lookup(name)
                if isinstance(d, Prop):
                    if d.fset is None:
                        self.raise_b('AttributeError', 'cannot set property %s' % name)
                        return
                    self.call(d.fset, [o, v], {})
                    return
            self.touch(o, 'attribute %s' % name)
            r = self.rel(o.pc0)
            o.attrs[name] = v if r is True else self.gite(r, v, o.attrs.get(name, UNSET))
            return
        if isinstance(o, ClassVal):
            if not self.importing:
                self.ev('class_write', cls=o.qual, name=name)
            o.attrs[name] = v if self.pc is True else self.gite(self.pc, v, o.attrs.get(name, UNSET))
            return
        if isinstance(o, ModuleVal):
            if not self.importing:
                self.ev('global_write', name=name, module=o.name, value=v)
            o.env[name] = v if self.pc is True else self.gite(self.pc, v, o.env.get(name, UNSET))
            return
        if isinstance(o, FuncVal):
            if not self.importing:
                self.ev('global_write', name=o.name + '.' + name, module=o.module.name, value=v)
            o.attrs[name] = v
            return
        if isinstance(o, ExcVal):
            o.attrs[name] = v
            return
        if isinstance(o, Arr):
            if name == 'shape':
                try:
                    self.touch(o, 'shape')
                    o.a.shape = tuple(self.toint(x) for x in (self.iter_plain(v) if not isinstance(v, int) else [v]))
                except Exception:
                    self.note('shape assignment')
                return
        if isinstance(o, ExtObj):
            self.ev('extobj_set', obj=o, name=name, value=v)
            h = self.extmeth.get((o.kind, '__setattr__'))
            if h:
                h(self, o, [name, v], {})
            else:
                o.data[name] = v
            return
        self.ev('setattr_unknown', obj=o, name=name)
        self.note('attribute store on %r' % (o,))

    # ------------------------------------------------------------------------------------------------ items
    def toint(self, x):
        if isinstance(x, bool):
            return int(x)
        if isinstance(x, int):
            return x
        if isinstance(x, Poly):
            c = x.const()
            if c is not None and Q(c).denominator == 1:
                return int(c)
        if isinstance(x, Arr) and x.a.size == 1:
            return self.toint(x.a.ravel()[0])
        if isinstance(x, DD):
            y = self.simp(x)
            if not isinstance(y, DD):
                return self.toint(y)
            if all(int_like(l) for l in leaves(y)):
                raise GatedIndex(y)
        raise Unsupported('index %r' % (x,))

    def npindex(self, k):
        """numpy index from abstract index"""
        if isinstance(k, tuple):
            return tuple(self.npindex(x) for x in k)
        if isinstance(k, SliceVal):
            return slice(*(None if x is None else self.toint(x) for x in (k.lo, k.hi, k.st)))
        if isinstance(k, slice):
            return k
        if k is None or k is Ellipsis:
            return k
        if isinstance(k, Arr):
            if k.dt == 'b':
                if all(isinstance(x, bool) for x in k.a.ravel()):
                    return k.a.astype(bool)
                raise Unsupported('symbolic mask')
            if k.a.size == 0:
                return np.zeros(k.a.shape, dtype=int)
            return np.vectorize(self.toint, otypes=[int])(k.a)
        if isinstance(k, PyList):
            it = self.iter_plain(k)
            if it is not None and all(isinstance(x, bool) for x in it) and it:
                return np.array(it, dtype=bool)
            if it is None:
                raise Unsupported('gated index list')
            return [self.npindex(x) for x in it]
        if isinstance(k, ExtVal) and k.name == 'numpy.newaxis':
            return None
        if isinstance(k, bool):
            return k
        return self.toint(k)

    def wrap(self, r, like):
        if isinstance(r, np.ndarray):
            o = Arr(r, like.dt, like.pc0)
            return o
        return r

    def gated_part(self, k):
        """the first gated bound or component of an index and a function that puts a value in its place"""
        if isinstance(k, SliceVal):
            for n in ('lo', 'hi', 'st'):
                c = getattr(k, n)
                if isinstance(c, DD):
                    def put(l, n=n):
                        d = {x: getattr(k, x) for x in ('lo', 'hi', 'st')}
                        d[n] = l
                        return SliceVal(d['lo'], d['hi'], d['st'])
                    return c, put
        elif isinstance(k, PyList):
            if isinstance(k.v, DD):
                return k.v, lambda l: self.mklist(l) if isinstance(l, tuple) else l
        elif isinstance(k, tuple):
            for i, c in enumerate(k):
                if isinstance(c, DD) and not has_obj(c):
                    return c, lambda l, i=i: k[:i] + (l,) + k[i + 1:]
                r = self.gated_part(c) if isinstance(c, (SliceVal, PyList)) else None
                if r is not None:
                    return r[0], lambda l, i=i, p=r[1]: k[:i] + (p(l),) + k[i + 1:]
        return None

    def gated_positions(self, k):
        """elements of an index array some of which are gated, or None"""
        if isinstance(k, Arr) and k.dt != 'b' and any(isinstance(x, DD) for x in k.a.ravel()):
            return k.a.shape, list(k.a.ravel())
        if isinstance(k, PyList):
            it = self.iter_plain(k)
            if it and any(isinstance(x, DD) for x in it) and not any(isinstance(x, (bool, Cond)) for x in it):
                return (len(it),), list(it)
        return None

    def getitem(self, o, k):
        o = self.simp(o)
        if isinstance(o, DD):
            return self.lift_cases(o, lambda l: self.getitem(l, k))
        part = self.gated_part(k)
        if part is not None:
            return self.lift_cases(part[0], lambda l: self.getitem(o, part[1](l)))
        if isinstance(o, Arr):
            g = self.gated_positions(k)
            if g is not None:
                rows = [self.simp(self.getitem(o, x)) for x in g[1]]
                if all(isinstance(r, Arr) for r in rows) and len({r.a.shape for r in rows}) == 1:
                    b = np.empty((len(rows),) + rows[0].a.shape, dtype=object)
                    for i, r in enumerate(rows):
                        b[i] = r.a
                    return self.mkarr(b.reshape(g[0] + rows[0].a.shape), o.dt)
                if not any(isinstance(r, Arr) or has_obj(r) for r in rows):
                    b = np.empty(len(rows), dtype=object)
                    for i, r in enumerate(rows):
                        b[i] = r
                    return self.mkarr(b.reshape(g[0]), o.dt)
        if isinstance(k, DD):
            k = self.simp(k)
            if isinstance(k, DD):
                return self.lift_cases(k, lambda l: self.getitem(o, l))
        if isinstance(o, Opaque):
            return o
        if isinstance(k, Opaque):
            return k
        if isinstance(o, Arr):
            if self.symbolic_mask(k):
                try:
                    k = self.split_masks(k)
                except Unsupported as u:
                    return self.opaque(str(u))
                if isinstance(k, DD):
                    return self.lift_cases(k, lambda l: self.getitem(o, l))
            try:
                idx = self.npindex(k)
            except Unsupported as u:
                return self.opaque(str(u))
            try:
                r = o.a[idx]
            except (IndexError, TypeError) as x:
                return self.raise_b('IndexError', str(x))
            return self.wrap(r, o)
        if isinstance(o, ClassVal) and '_members' in o.attrs:
            for m in o.attrs['_members']:
                if m.attrs['_name_'] == k:
                    return m
            return self.raise_b('KeyError', k) if isinstance(k, str) else self.opaque('enum member by unknown name')
        if isinstance(o, tuple):
            if isinstance(k, SliceVal):
                return tuple(o)[self.npindex(k)]
            try:
                return o[self.toint(k)]
            except Unsupported as u:
                return self.opaque(str(u))
            except IndexError:
                return self.raise_b('IndexError', 'tuple index out of range')
        if isinstance(o, PyList):
            if isinstance(o.v, DD):
                res = self.lift_cases(o.v, lambda t: self.getitem(t, k))
            else:
                res = self.getitem(o.v, k)
            if isinstance(k, SliceVal) and isinstance(res, tuple):
                return self.mklist(res)
            if isinstance(k, SliceVal) and isinstance(res, DD):
                return self.mklist(res)
            if isinstance(res, DD) and has_obj(res):
                res = self.simp(res)
            return res
        if isinstance(o, PyDict):
            kk = dkey(k)
            if kk in o.d:
                v = o.d[kk]
                if isinstance(v, DD) and any(l is UNSET for l in leaves(v)):
                    v = self.simp(v)
                    g = lift(lambda l: l is UNSET, v)
                    self.branch(g, lambda: self.raise_b('KeyError', k), lambda: None)
                    return self.simp(v)
                if v is UNSET:
                    return self.raise_b('KeyError', k)
                return v
            if isinstance(k, SStr) and not k.distinct and o.d:
                # unknown key: may be any of the entries or missing
                acc = UNSET
                for kk2, v in o.d.items():
                    c = self.compare('Eq', k, o.keys[kk2])
                    acc = self.gite(self.truth(c), v, acc)
                if isinstance(acc, DD):
                    g = lift(lambda l: l is UNSET, acc)
                    self.branch(g, lambda: self.raise_b('KeyError', k), lambda: None)
                    return self.simp(acc)
                return self.raise_b('KeyError', k)
            if o.extra is not None:
                return o.extra(k)
            return self.raise_b('KeyError', k)
        if isinstance(o, str):
            try:
                return o[self.npindex(k)]
            except IndexError:
                return self.raise_b('IndexError', 'string index out of range')
            except Unsupported as u:
                return self.opaque(str(u))
        if isinstance(o, SStr):
            return SStr((('getitem', o.key(), repr(k) if not isinstance(k, SliceVal) else (k.lo, k.hi, k.st)),), o.distinct)
        if isinstance(o, range):
            return o[self.npindex(k)]
        if isinstance(o, ExtObj):
            h = self.extmeth.get((o.kind, '__getitem__'))
            if h:
                return h(self, o, [k], {})
            return ExtObj('unknown', dict(src='%s[]' % o.data.get('src', o.kind)))
        if isinstance(o, Instance):
            m, _ = o.cls.lookup('__getitem__')
            if m is not None:
                return self.call(Bound(m, o), [k], {})
        if isinstance(o, (ExtVal, ClassVal)):
            return o            # typing subscripts
        if o is UNSET:
            return UNSET
        if o is None or isinstance(o, (int, Poly)):
            return self.raise_b('TypeError', '%r is not subscriptable' % (o,))
        return self.opaque('subscript of %r' % (o,))

    @staticmethod
    def symbolic_mask(k):
        if isinstance(k, tuple):
            return any(Interp.symbolic_mask(x) for x in k)
        if isinstance(k, PyList):
            return isinstance(k.v, tuple) and bool(k.v) and any(isinstance(x, DD) for x in k.v) and all(
                isinstance(x, bool) or isinstance(x, DD) and all(isinstance(l, bool) for l in leaves(x)) for x in k.v)
        return isinstance(k, Arr) and k.dt == 'b' and not all(isinstance(x, bool) for x in k.a.ravel())

    def split_masks(self, k, limit=64):
        """the index k with its symbolic masks replaced by concrete masks: a gated tuple"""
        if isinstance(k, PyList):
            k = self.mkarr(np.array(list(k.v) + [None], dtype=object)[:-1], 'b')
        if isinstance(k, tuple):
            acc = ()
            for x in k:
                y = self.split_masks(x, limit) if self.symbolic_mask(x) else (x,)
                acc = lift(lambda t, u: t + u, acc, y) if isinstance(y, DD) or isinstance(acc, DD) else acc + y
            return acc
        flat, pc0, count = k.a.ravel(), self.pc, [0]

        def build(i, bits):
            if i == len(flat):
                count[0] += 1
                if count[0] > limit:
                    raise Unsupported('symbolic mask')
                return (Arr(np.array(bits + [None], dtype=object)[:-1].reshape(k.a.shape), 'b'),)
            t = self.simp(self.truth(flat[i]))
            if isinstance(t, bool):
                return build(i + 1, bits + [t])
            pc = self.pc
            out = []
            for val, g in ((True, t), (False, g_not(t))):
                self.pc = g_and(pc, g)
                out.append(build(i + 1, bits + [val]) if self.pc is not False else None)
            self.pc = pc
            if out[0] is None or out[1] is None:
                return out[0] if out[1] is None else out[1]
            return self.gite(t, out[0], out[1])
        try:
            return build(0, [])
        finally:
            self.pc = pc0

    def masked_positions(self, o, k):
        """(flat position, guard) of the elements of o that the index k with symbolic masks selects, and the shape of the selection
        as if the masks were all true"""
        ks = [self.mkarr(np.array(list(x.v) + [None], dtype=object)[:-1], 'b') if isinstance(x, PyList) and self.symbolic_mask(x) else x
              for x in (k if isinstance(k, tuple) else (k,))]
        full, guard, d = [], np.empty(o.a.shape, dtype=object), 0
        guard.fill(True)
        both = np.frompyfunc(lambda x, y: g_and(x, self.truth(y)), 2, 1)
        for x in ks:
            if isinstance(x, Arr) and x.dt == 'b':
                m = x.a
                if m.shape != o.a.shape[d:d + m.ndim]:
                    return None
                full.append(np.ones(m.shape, dtype=bool))
                guard = both(guard, np.broadcast_to(m.reshape((1,) * d + m.shape + (1,) * (o.a.ndim - d - m.ndim)), o.a.shape))
                d += m.ndim
            elif x is Ellipsis or isinstance(x, (Arr, PyList)):
                return None
            else:
                y = self.npindex(x)
                full.append(y)
                d += 0 if y is None else 1
        full = tuple(full)
        pos = np.arange(o.a.size).reshape(o.a.shape)[full]
        return pos, guard[full], full

    def masked_store(self, o, k, v, op=None):
        """o[k] = v (or o[k] op= v) for an index with symbolic masks, element by element; False where that is not possible"""
        try:
            pos = self.masked_positions(o, k)
        except (IndexError, Unsupported):
            return False
        if pos is None:
            return False
        pos, guard, full = pos
        v = self.simp(v)
        if isinstance(v, (PyList, tuple)):
            v = self.asarray(v)
        if isinstance(v, DD) and has_obj(v) or isinstance(v, Arr) and v.a.size != 1 and v.a.ndim >= pos.ndim:
            return False
        if op is not None:
            v = self.simp(self.binop(op, self.wrap(o.a[full].copy(), o), v))
        val = v.a if isinstance(v, Arr) else None
        if val is None:
            val = np.empty(pos.shape, dtype=object)
            val.fill(v)
        try:
            val = np.broadcast_to(val, pos.shape)
        except ValueError:
            return False
        pc0 = self.pc
        for i in np.ndindex(*pos.shape):
            self.pc = g_and(pc0, guard[i])
            if self.pc is not False:
                self.store_arr(o, np.unravel_index(pos[i], o.a.shape), val[i])
        self.pc = pc0
        return True

    def conv_elem(self, x, dt):
        """value stored into an array of the given element type"""
        if dt == 'f':
            if isinstance(x, bool):
                return ONE if x else ZERO
            if isinstance(x, int):
                return const(x)
            if isinstance(x, DD):
                return lift(lambda l: const(int(l)) if isinstance(l, (bool, int)) else l, x)
            if x is None:
                return NAN
            return x
        if dt == 'i':
            if isinstance(x, bool):
                return int(x)
            if isinstance(x, int):
                return x
            return lift(lambda l: l if isinstance(l, int) else self.trunc(l) if isinstance(l, Poly) else l, x)
        if dt == 'b':
            if isinstance(x, bool):
                return x
            return self.truth(x)
        return x

    def trunc(self, p):
        c = p.const()
        if c is not None:
            c = Q(c)
            n = abs(c.numerator) // c.denominator
            return n if c >= 0 else -n
        return apoly(mk_atom('app', 'trunc', (p,)))

    def store_arr(self, o, idx, v):
        """o[idx] = v under the current condition"""
        r = self.rel(o.pc0)
        if r is False:
            return
        self.touch(o, 'array elements')
        v = self.simp(v)
        if isinstance(v, DD) and has_obj(v):
            self.lift_cases(v, lambda l: self.store_arr(o, idx, l))
            return
        if isinstance(v, (PyList, tuple)):
            v = self.asarray(v)
        if isinstance(v, Arr):
            val = v.a
        elif isinstance(v, Opaque):
            val = v
        else:
            val = v
        if isinstance(val, np.ndarray):
            val = np.frompyfunc(lambda x: self.conv_elem(x, o.dt), 1, 1)(val) if val.ndim else self.conv_elem(val[()], o.dt)
            if val is v.a if isinstance(v, Arr) else False:
                val = val.copy()
        else:
            val = self.conv_elem(val, o.dt)
        try:
            old = o.a[idx]
            if r is True:
                if not isinstance(val, np.ndarray) and isinstance(old, np.ndarray):
                    tmp = np.empty(old.shape, dtype=object)
                    for i in np.ndindex(*old.shape):
                        tmp[i] = val
                    o.a[idx] = tmp
                else:
                    if isinstance(val, np.ndarray) and not isinstance(old, np.ndarray):
                        if val.size != 1:
                            raise ValueError('setting an array element with a sequence')
                        val = val.ravel()[0]
                    elif isinstance(val, np.ndarray):
                        val = val.copy()
                    o.a[idx] = val
            else:
                if isinstance(old, np.ndarray):
                    tmp = np.empty(old.shape, dtype=object)
                    if isinstance(val, np.ndarray):
                        vb = np.broadcast_to(val, old.shape)
                    else:
                        vb = None
                    for i in np.ndindex(*old.shape):
                        tmp[i] = ite(r, vb[i] if vb is not None else val, old[i])
                    o.a[idx] = tmp
                else:
                    if isinstance(val, np.ndarray):
                        val = val.ravel()[0]
                    o.a[idx] = ite(r, val, old)
        except (ValueError, IndexError, TypeError) as x:
            self.raise_b('ValueError' if isinstance(x, ValueError) else 'IndexError', str(x))

    def setitem(self, o, k, v):
        if self.pc is False:
            return
        o = self.simp(o)
        self.remember(v)
        if isinstance(o, DD):
            self.lift_cases(o, lambda l: self.setitem(l, k, v))
            return
        part = self.gated_part(k)
        if part is not None:
            self.lift_cases(part[0], lambda l: self.setitem(o, part[1](l), v))
            return
        if isinstance(k, DD):
            k = self.simp(k)
            if isinstance(k, DD):
                self.lift_cases(k, lambda l: self.setitem(o, l, v))
                return
        if isinstance(o, Arr):
            if self.symbolic_mask(k):
                if self.masked_store(o, k, v):
                    return
                try:
                    k = self.split_masks(k)
                except Unsupported as u:
                    self.note(str(u))
                    self.store_arr(o, Ellipsis, Opaque(str(u)))
                    return
                self.lift_cases(k, lambda l: self.setitem(o, l, v))
                return
            try:
                idx = self.npindex(k)
            except Unsupported as u:
                self.note(str(u))
                self.store_arr(o, Ellipsis, Opaque(str(u)))
                return
            self.store_arr(o, idx, v)
            return
        if isinstance(o, PyList):
            self.touch(o, 'list item')
            r = self.rel(o.pc0)
            try:
                i = self.npindex(k)
            except Unsupported as u:
                self.note(str(u))
                return

            def upd(t):
                if not isinstance(t, tuple):
                    return t
                l = list(t)
                if isinstance(i, slice):
                    l[i] = self.iter_plain(v) or []
                else:
                    if not -len(l) <= i < len(l):
                        self.raise_b('IndexError', 'list assignment index out of range')
                        return t
                    l[i] = v
                return tuple(l)
            o.v = self.gite(r, lift(upd, o.v), o.v)
            return
        if isinstance(o, PyDict):
            self.touch(o, 'dict item')
            r = self.rel(o.pc0)
            kk = dkey(k)
            o.keys[kk] = k
            o.d[kk] = v if r is True else self.gite(r, v, o.d.get(kk, UNSET))
            return
        if isinstance(o, ExtObj):
            h = self.extmeth.get((o.kind, '__setitem__'))
            if h:
                h(self, o, [k, v], {})
            else:
                self.ev('extobj_setitem', obj=o, key=k, value=v)
            return
        if isinstance(o, Instance):
            m, _ = o.cls.lookup('__setitem__')
            if m is not None:
                self.call(Bound(m, o), [k, v], {})
                return
        if isinstance(o, (tuple, str)):
            self.raise_b('TypeError', 'object does not support item assignment')
            return
        self.note('item store on %r' % (o,))

    def list_extend(self, o, v):
        self.touch(o, 'extend')
        items = self.iter_items(v)
        if items is None:
            self.note('extend with unknown value')
            o.v = o.v + (Opaque('unknown elements'),) if isinstance(o.v, tuple) else o.v
            return
        r = self.rel(o.pc0)
        new = o.v
        for g, x in items:
            gg = g_and(r, g)
            new = lift(lambda t, gg=gg, x=x: ite(gg, t + (x,), t) if gg is not True else t + (x,), new)
        o.v = new

    def dict_update(self, d, v):
        v = self.simp(v)
        self.touch(d, 'update')
        r = self.rel(d.pc0)
        if isinstance(v, DD):
            self.lift_cases(v, lambda l: self.dict_update(d, l))
            return
        if isinstance(v, PyDict):
            for k, x in v.d.items():
                d.keys[k] = v.keys[k]
                old = d.d.get(k, UNSET)
                if isinstance(x, DD) and any(l is UNSET for l in leaves(x)):
                    x = lift(lambda l: old if l is UNSET else l, x)
                d.d[k] = x if r is True else self.gite(r, x, old)
            return
        items = self.iter_plain(v)
        if items is None:
            self.note('dict update with %r' % (v,))
            return
        for it in items:
            p = self.iter_plain(it)
            if p and len(p) == 2:
                kk = dkey(p[0])
                d.keys[kk] = p[0]
                d.d[kk] = p[1] if r is True else self.gite(r, p[1], d.d.get(kk, UNSET))

    # ------------------------------------------------------------------------------------------------ running
    def run(self, f, *args, **kw):
        """call a repository function; returns its value (pc = condition of normal return, raises[0] = the others)"""
        return self.call(f, list(args), kw)

    def outcome(self):
        return self.pc, list(self.raises[0])


def j_default(f, names, i):
    j = i - (len(names) - len(f.defaults))
    return f.defaults[j] if j >= 0 else None


_gen = {}


def drop_unset(v):
    return drop_bot(lift(lambda l: BOT if l is UNSET else l, v)) if isinstance(v, DD) else v


PLAIN = ('object', 'abc.ABC', 'typing.Generic', 'typing.Protocol', 'abc.ABCMeta')
ENUMS = {'enum.Enum', 'enum.IntEnum', 'enum.StrEnum', 'enum.Flag', 'enum.IntFlag'}


def real_type(o):
    """the Python type that stands behind a value of the analysis"""
    for t, k in ((bool, bool), (int, int), (Poly, float), ((str, SStr), str), (tuple, tuple), (PyDict, dict), (range, range)):
        if isinstance(o, t):
            return k
    if isinstance(o, PyList):
        return set if o.kind == 'set' else list
    if isinstance(o, Builtin) and isinstance(getattr(pybuiltins, o.name, None), type):
        return getattr(pybuiltins, o.name)
    if isinstance(o, Builtin):
        return type(len)
    if o is None:
        return type(None)
    return None


def is_generator(node):
    r = _gen.get(id(node))
    if r is None:
        r = False
        stack = list(node.body)
        while stack:
            n = stack.pop()
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                r = True
                break
            if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.AsyncFunctionDef)):
                continue
            stack.extend(ast.iter_child_nodes(n))
        _gen[id(node)] = (node, r)
        return r
    return r[1]
