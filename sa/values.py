"""Abstract values other than numbers: arrays, containers, objects, functions, symbolic strings."""
import numpy as np

from .terms import *

SCAL = (int, str, bool, type(None), Poly)


class _Unset:
    def __repr__(self):
        return 'UNSET'


UNSET = _Unset()


class Arr:
    """array of value numbers; the shape, strides and aliasing are those of the wrapped object array"""
    __slots__ = ('a', 'dt', 'pc0', '__weakref__')

    def __init__(self, a, dt='f', pc0=True):
        self.a = a
        self.dt = dt
        self.pc0 = pc0

    @property
    def shape(self):
        return self.a.shape

    def __repr__(self):
        if self.a.size <= 12:
            return 'Arr%s%s' % (self.a.shape, [show(x, 60) if isinstance(x, (Poly, DD)) else x for x in self.a.ravel()])
        return 'Arr%s' % (self.a.shape,)


def root(a):
    while a.base is not None and isinstance(a.base, np.ndarray):
        a = a.base
    return a


class PyList:
    __slots__ = ('v', 'pc0', 'kind', 'once')

    def __init__(self, items, pc0=True, kind='list'):
        self.once = False            # an iterator: what has been taken is gone
        self.v = items if isinstance(items, DD) else tuple(items)
        self.pc0 = pc0
        self.kind = kind

    def __repr__(self):
        return 'List%r' % (self.v,)


class NamedTup(tuple):
    """An instance of a named tuple class."""
    cls = None
    __hash__ = tuple.__hash__

    @staticmethod
    def make(cls, items):
        t = NamedTup(items)
        t.cls = cls
        return t


class PyDict:
    __slots__ = ('d', 'pc0', 'keys', 'extra')

    def __init__(self, d=None, pc0=True):
        self.d = {}          # key -> gated value (UNSET leaf where absent)
        self.keys = {}       # key -> original key value
        self.pc0 = pc0
        self.extra = None
        for k, v in (d or {}).items():
            self.d[dkey(k)] = v
            self.keys[dkey(k)] = k

    def __repr__(self):
        return 'Dict%r' % (self.d,)


def dkey(k):
    if isinstance(k, SStr):
        return ('sstr',) + k.key()
    if isinstance(k, Poly):
        c = k.const()
        if c is not None:
            return c
        return ('poly', k.id)
    if isinstance(k, tuple):
        return tuple(dkey(x) for x in k)
    if isinstance(k, (str, int, bool, type(None))):
        return k
    return ('obj', id(k))


class SStr:
    """string with symbolic parts"""
    __slots__ = ('parts', 'distinct')

    def __init__(self, parts, distinct=False):
        out = []
        for p in parts:
            if isinstance(p, SStr):
                ps = p.parts
            else:
                ps = (p,)
            for q in ps:
                if isinstance(q, str) and not q:
                    continue
                if isinstance(q, str) and out and isinstance(out[-1], str):
                    out[-1] = out[-1] + q
                else:
                    out.append(q)
        self.parts = tuple(out)
        self.distinct = distinct

    def key(self):
        return tuple(p if isinstance(p, str) else ('#',) + p if isinstance(p, tuple) else ('id', id(p)) for p in self.parts)

    def __eq__(self, o):
        return isinstance(o, SStr) and self.key() == o.key()

    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        return ''.join(p if isinstance(p, str) else '<%s>' % (p[0] if isinstance(p, tuple) else p) for p in self.parts)


def strsym(name, distinct=False):
    return SStr(((name,),), distinct)


def mkstr(parts):
    s = SStr(parts, any(isinstance(p, SStr) and p.distinct for p in parts))
    if all(isinstance(p, str) for p in s.parts):
        return ''.join(s.parts)
    return s


class ModuleVal:
    def __init__(self, name, path=None):
        self.name = name
        self.path = path
        self.env = {}

    def __repr__(self):
        return 'module %s' % self.name


class ExtVal:
    """something outside the repository, known by its dotted name"""
    _tab = {}

    def __new__(cls, name):
        o = cls._tab.get(name)
        if o is None:
            o = object.__new__(cls)
            o.name = name
            cls._tab[name] = o
        return o

    def __repr__(self):
        return 'ext %s' % self.name


class ExtObj:
    """instance made by external code; attributes are opaque, calls on it are recorded"""

    def __init__(self, kind, data=None, pc0=True):
        self.kind = kind
        self.data = data if data is not None else {}
        self.pc0 = pc0

    def __repr__(self):
        return 'extobj %s' % self.kind


class FuncVal:
    def __init__(self, node, module, closure, name, qual, cls=None, defaults=(), kwdefaults=None):
        self.node = node
        self.module = module
        self.closure = closure
        self.name = name
        self.qual = qual
        self.cls = cls
        self.defaults = defaults
        self.kwdefaults = kwdefaults or {}
        self.attrs = {}

    def __repr__(self):
        return 'function %s' % self.qual


class Builtin:
    def __init__(self, name, fn):
        self.name = name
        self.fn = fn

    def __repr__(self):
        return 'builtin %s' % self.name


class Bound:
    def __init__(self, fn, self_):
        self.fn = fn
        self.self_ = self_

    def __repr__(self):
        return 'bound %r' % (self.fn,)


class Prop:
    def __init__(self, fget, fset=None):
        self.fget = fget
        self.fset = fset
        self.cached = False


class StaticM:
    def __init__(self, fn):
        self.fn = fn


class ClassM:
    def __init__(self, fn):
        self.fn = fn


class ClassVal:
    def __init__(self, name, qual, bases, module):
        self.name = name
        self.qual = qual
        self.bases = bases
        self.module = module
        self.attrs = {}
        self.fields = None        # dataclass fields: list of (name, default, factory, init)
        self.annots = []          # own annotations in order: (name, classvar)
        self.node = None

    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, ClassVal):
                for c in b.mro():
                    if c not in out:
                        out.append(c)
        return out

    def lookup(self, name, after=None):
        m = self.mro()
        if after is not None:
            m = m[m.index(after) + 1:]
        for c in m:
            if name in c.attrs:
                return c.attrs[name], c
        return None, None

    def extbases(self):
        s = []
        for c in self.mro():
            for b in c.bases:
                if not isinstance(b, ClassVal):
                    s.append(b)
        return s

    def __repr__(self):
        return 'class %s' % self.qual


class Instance:
    def __init__(self, cls, pc0=True):
        self.cls = cls
        self.attrs = {}
        self.pc0 = pc0

    def __repr__(self):
        return '<%s>' % self.cls.name


class OpaqueInst:
    """stands for a caller's object whose listed attributes are given"""

    def __init__(self, name, attrs, cls=None, on_missing=None):
        self.name = name
        self.attrs = dict(attrs)
        self.cls = cls
        self.on_missing = on_missing
        self.pc0 = True

    def __repr__(self):
        return '<%s>' % self.name


class ExcVal:
    def __init__(self, cls, args=()):
        self.cls = cls           # ClassVal or str (builtin name)
        self.args = args
        self.attrs = {}

    def __repr__(self):
        return '%s(%s)' % (self.cls if isinstance(self.cls, str) else self.cls.name, ', '.join(repr(a) for a in self.args))


class Super:
    def __init__(self, cls, obj):
        self.cls = cls
        self.obj = obj


class SliceVal:
    def __init__(self, lo, hi, st):
        self.lo, self.hi, self.st = lo, hi, st


def isnum(x):
    return isinstance(x, (Poly, int)) or x is NAN


_has_obj = {}


def has_obj(g):
    """does a gated value have a leaf that is not a plain scalar"""
    if not isinstance(g, DD):
        return not isinstance(g, SCAL)
    r = _has_obj.get(g.id)
    if r is None:
        r = any(has_obj(b) for b in g.br)
        _has_obj[g.id] = r
    return r


def cases(g, pc=True):
    """[(guard, leaf)] with one entry per distinct leaf"""
    if not isinstance(g, DD):
        return [(True, g)]
    ls = leaves(g)
    out = []
    for l in ls:
        if l is BOT:
            continue
        gd = lift(lambda x, l=l: same(x, l) or (isinstance(l, tuple) and x is l), g)
        out.append((gd, l))
    return out
