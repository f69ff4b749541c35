"""Operators, builtins and the standard-library / pandas / plotting models of the value-flow analysis."""
import ast
import re

import numpy as np

from .terms import *
from .values import *
from .interp import Interp, BUILTIN_EXC, Unsupported, GatedIndex, Event

ANY_OBJ = (PyList, PyDict, ModuleVal, ExtVal, ExtObj, FuncVal, Builtin, Bound, ClassVal, Instance, OpaqueInst, ExcVal)


def percent(I, fmt, arg, items):
    """printf-style formatting, conversion by conversion (None: not understood)"""
    if not isinstance(fmt, str):
        return None
    parts, at, used = [], 0, 0
    for m in re.finditer(r'%(?:\((\w+)\))?([#0\- +]*)(\d*)((?:\.\d+)?)([sdrifgeFGEuxX%])', fmt):
        parts.append(fmt[at:m.start()])
        at = m.end()
        if '%' in parts[-1]:
            return None
        name, flags, width, prec, conv = m.groups()
        if conv == '%':
            parts.append('%')
            continue
        if name is not None:
            if not isinstance(arg, PyDict):
                return None
            v = arg.d.get(dkey(name), UNSET)
        else:
            if used >= len(items):
                return I.raise_b('TypeError', 'not enough arguments for format string')
            v = items[used]
            used += 1
        if v is UNSET or isinstance(v, (DD, Opaque)):
            return None
        x = float(v.const()) if isinstance(v, Poly) and v.const() is not None else v
        if isinstance(x, (bool, int, float)) and v is not None or isinstance(x, str):
            try:
                parts.append(('%' + flags + width + prec + conv) % x)
                continue
            except (TypeError, ValueError):
                return I.raise_b('TypeError', 'format: a number is required')
        if conv in 'sr':
            if flags or width or prec:
                return None
            parts.append(I.to_str(v, '', 114 if conv == 'r' else -1))
        elif isinstance(v, Poly):
            parts.append(I.to_str(v, (flags + width + prec + conv) or ''))
        else:
            return None
    if '%' in fmt[at:]:
        return None
    parts.append(fmt[at:])
    if used < len(items) and not (len(items) == 1 and isinstance(arg, PyDict)):
        return I.raise_b('TypeError', 'not all arguments converted during string formatting')
    return I.gated_str(parts)


# ---------------------------------------------------------------------------------------------------- scalar operators
def ipow(a, b):
    if isinstance(a, int) and isinstance(b, int):
        if b >= 0:
            return a ** b
        return const(Q(a) ** b) if a else Opaque('division by zero')
    return g_pow(a, b)


def sdiv(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return const(Q(a, b)) if b else Opaque('division by zero')
    return g_div(a, b)


def sfloordiv(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a // b if b else Opaque('division by zero')
    pa, pb = num(a), num(b)
    if pa is not None and pb is not None:
        ca, cb = pa.const(), pb.const()
        if ca is not None and cb is not None and cb != 0:
            return const(Q(ca) / Q(cb) // 1)
        return app('floor', _div1(pa, pb))
    return g_fdiv(a, b)


def _div1(a, b):
    return g_div(a, b)


def smod(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a % b if b else Opaque('division by zero')
    pa, pb = num(a), num(b)
    if pa is not None and pb is not None:
        ca, cb = pa.const(), pb.const()
        if ca is not None and cb is not None and cb != 0:
            return const(Q(ca) % Q(cb))
        return g_sub(a, g_mul(b, app('floor', _div1(pa, pb))))
    return g_mod(a, b)


def _bool2(f, g):
    def h(a, b):
        if isinstance(a, bool) and isinstance(b, bool):
            return f(a, b)
        if isinstance(a, int) and isinstance(b, int):
            return f(a, b)
        if isinstance(a, (Opaque,)):
            return a
        if isinstance(b, Opaque):
            return b
        return lift(lambda x, y: f(x, y) if isinstance(x, int) and isinstance(y, int) else
                    (x if isinstance(x, Opaque) or x is BOT else y if isinstance(y, Opaque) or y is BOT else Opaque('bit operation')), a, b)
    return h


def _arith(intf, g):
    def h(a, b):
        if isinstance(a, int) and isinstance(b, int):
            return intf(a, b)
        if isinstance(a, DD) or isinstance(b, DD):
            return lift(h0, a, b)
        return g(a, b)

    def h0(x, y):
        if isinstance(x, int) and isinstance(y, int):
            return intf(x, y)
        return g(x, y)
    return h


SOPS = {'Add': _arith(lambda a, b: a + b, g_add), 'Sub': _arith(lambda a, b: a - b, g_sub),
        'Mult': _arith(lambda a, b: a * b, g_mul), 'Div': _arith(sdiv, g_div), 'Pow': _arith(ipow, g_pow),
        'FloorDiv': _arith(sfloordiv, g_fdiv), 'Mod': _arith(smod, g_mod),
        'BitAnd': _bool2(lambda a, b: a & b, g_and), 'BitOr': _bool2(lambda a, b: a | b, g_or),
        'BitXor': _bool2(lambda a, b: a ^ b, None), 'LShift': _bool2(lambda a, b: int(a) << b, None),
        'RShift': _bool2(lambda a, b: int(a) >> b, None)}

DUNDER = {'Add': '__add__', 'Sub': '__sub__', 'Mult': '__mul__', 'Div': '__truediv__', 'Pow': '__pow__',
          'MatMult': '__matmul__', 'FloorDiv': '__floordiv__', 'Mod': '__mod__', 'BitOr': '__or__', 'BitAnd': '__and__'}


def res_dt(op, a, b):
    if op == 'Div':
        return 'f'
    if 'O' in (a, b):
        return 'O'
    if 'f' in (a, b):
        return 'f'
    if op in ('BitAnd', 'BitOr', 'BitXor') and a == b == 'b':
        return 'b'
    return 'i'


def sdt(x):
    if isinstance(x, bool):
        return 'b'
    if isinstance(x, int):
        return 'i'
    if isinstance(x, (str, SStr)):
        return 'U'
    if isinstance(x, (Poly,)) or x is NAN:
        return 'f'
    if isinstance(x, DD):
        ls = [l for l in leaves(x) if l is not BOT]
        ds = {sdt(l) for l in ls}
        for d in ('O', 'U', 'f', 'i', 'b'):
            if d in ds:
                return d
        return 'f'
    if isinstance(x, Opaque):
        return 'f'
    return 'O'


def dt_of(v):
    return v.dt if isinstance(v, Arr) else sdt(v)


def arr_of(self, v):
    """ndarray (or scalar element) for elementwise use"""
    if isinstance(v, Arr):
        return v.a
    if isinstance(v, (PyList, tuple)):
        return self.asarray(v).a
    return v


def elementwise(self, fn, args, dt):
    """broadcast fn over abstract arrays / scalars"""
    nds = []
    for v in args:
        x = arr_of(self, v)
        if not isinstance(x, np.ndarray):
            y = np.empty((), dtype=object)
            y[()] = x
            x = y
        nds.append(x)
    try:
        r = np.frompyfunc(fn, len(nds), 1)(*nds)
    except ValueError as e:
        return self.raise_b('ValueError', str(e))
    if isinstance(r, np.ndarray):
        if r.ndim == 0:
            return r[()]
        return self.mkarr(r, dt)
    return r


def binop(self, op, a, b):
    if self.pc is False:
        return UNSET
    if isinstance(a, int) and isinstance(b, int) and op in SOPS:
        return SOPS[op](a, b)
    a, b = self.simp(a), self.simp(b)
    if isinstance(a, Poly) and isinstance(b, Poly) and op in SOPS:
        return SOPS[op](a, b)
    if a is UNSET or b is UNSET:
        return UNSET
    if isinstance(a, DD) and has_obj(a):
        if not all(isinstance(l, (Poly, int, bool, Opaque)) or l is NAN or l is BOT for l in leaves(a)):
            return self.lift_cases(a, lambda l: self.binop(op, l, b))
    if isinstance(b, DD) and has_obj(b):
        if not all(isinstance(l, (Poly, int, bool, Opaque)) or l is NAN or l is BOT for l in leaves(b)):
            return self.lift_cases(b, lambda l: self.binop(op, a, l))
    for x, y, nm in ((a, b, DUNDER.get(op)), (b, a, '__r' + DUNDER.get(op, '__x')[2:])):
        if isinstance(x, Instance):
            m, _ = x.cls.lookup(nm)
            if m is not None:
                return self.call(Bound(m, x), [y], {})
    if isinstance(a, ExtObj) or isinstance(b, ExtObj):
        h = self.extmeth.get((a.kind, 'binop')) if isinstance(a, ExtObj) else None
        if h:
            return h(self, a, [op, b], {})
        return ExtObj('unknown', dict(src='%s of external values' % op, parts=(a, b)))
    if op == 'MatMult':
        return self.dot(a, b, matmul=True)
    if isinstance(a, Arr) or isinstance(b, Arr):
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            o = a if isinstance(a, Opaque) else b
            sh = a.a.shape if isinstance(a, Arr) else b.a.shape
            x = np.empty(sh, dtype=object)
            x.fill(o)
            return self.mkarr(x, 'f')
        if isinstance(a, (PyList, tuple)):
            a = self.asarray(a)
        if isinstance(b, (PyList, tuple)):
            b = self.asarray(b)
        if a is UNSET or b is UNSET:
            return UNSET
        for x in (a, b):
            if x is None or isinstance(x, (str, SStr, PyDict, FuncVal, ClassVal, Instance, OpaqueInst)):
                return self.raise_b('TypeError', 'unsupported operand types for %s' % op)
        f = SOPS.get(op)
        if f is None:
            return self.opaque('operator %s' % op)
        return elementwise(self, f, (a, b), res_dt(op, dt_of(a), dt_of(b)))
    if isinstance(a, Opaque):
        return a
    if isinstance(b, Opaque):
        return b
    # strings
    for x, y in ((a, b), (b, a)):
        if isinstance(x, (str, SStr, DD)) and isinstance(y, DD) and (op == 'Mod' and y is b or not isinstance(x, DD) or any(isinstance(l, (str, SStr)) for l in leaves(x))):
            if isinstance(x, (str, SStr)) or any(isinstance(l, (str, SStr)) for l in leaves(x)):
                if all(isinstance(l, (str, SStr, int, bool)) or l is BOT for l in leaves(y)):
                    return self.lift_cases(y, lambda l: self.binop(op, a, l) if y is b else self.binop(op, l, b))
    if isinstance(a, DD) and isinstance(b, (str, SStr)) and all(isinstance(l, (str, SStr)) for l in leaves(a)):
        return self.lift_cases(a, lambda l: self.binop(op, l, b))
    if isinstance(a, (str, SStr)):
        if op == 'Add':
            if isinstance(b, (str, SStr)):
                return mkstr([a, b])
            return self.raise_b('TypeError', 'can only concatenate str')
        if op == 'Mult' and isinstance(b, int) and isinstance(a, str):
            return a * b
        if op == 'Mod':
            items = b if isinstance(b, tuple) else (b,)
            r = percent(self, a, b, items)
            if r is not None:
                return r
            return mkstr([SStr((('%', a, tuple(repr(dkey(x)) for x in items)),))])
        return self.raise_b('TypeError', 'unsupported operand for str')
    # sequences
    for x, n in ((a, b), (b, a)):
        if op == 'Mult' and isinstance(x, (PyList, tuple)) and isinstance(n, DD) and all(isinstance(l, int) for l in leaves(n)):
            return self.lift_cases(n, lambda l: self.binop(op, x, l))
    # (an arithmetic operation of a list and a number is only defined for numpy scalars, which are not distinguished here)
    if isinstance(a, (PyList, tuple)) and isinstance(b, (Poly, DD)) or isinstance(b, (PyList, tuple)) and isinstance(a, (Poly, DD)):
        x, y = self.asarray(a), self.asarray(b)
        if isinstance(x, Arr) and isinstance(y, Arr):
            return binop(self, op, x if isinstance(a, (PyList, tuple)) else a, y if isinstance(b, (PyList, tuple)) else b)
    if isinstance(a, tuple) and isinstance(b, tuple) and op == 'Add':
        return a + b
    if isinstance(a, tuple) and isinstance(b, int) and op == 'Mult':
        return a * b
    if isinstance(b, tuple) and isinstance(a, int) and op == 'Mult':
        return b * a
    if isinstance(a, PyList) and a.kind == 'list':
        if op == 'Add' and isinstance(b, PyList):
            return self.mklist(lift(lambda x, y: x + y, a.v, b.v))
        if op == 'Mult' and isinstance(b, int):
            return self.mklist(lift(lambda x: x * b, a.v))
        return self.raise_b('TypeError', 'unsupported operand types for list %s' % op)
    if isinstance(b, PyList) and b.kind == 'list' and isinstance(a, int) and op == 'Mult':
        return self.mklist(lift(lambda x: x * a, b.v))
    if isinstance(a, PyList) and isinstance(b, PyList):
        ka = {dkey(x): x for x in self.iter_plain(a) or []}
        kb = {dkey(x): x for x in self.iter_plain(b) or []}
        r = {'BitOr': {**ka, **kb}, 'BitAnd': {k: v for k, v in ka.items() if k in kb},
             'Sub': {k: v for k, v in ka.items() if k not in kb},
             'BitXor': {k: v for k, v in list(ka.items()) + list(kb.items()) if (k in ka) != (k in kb)}}.get(op)
        if r is not None:
            return self.mklist(list(r.values()), 'set')
    if isinstance(a, PyDict) and isinstance(b, PyDict) and op == 'BitOr':
        d = self.mkdict()
        self.dict_update(d, a)
        self.dict_update(d, b)
        return d
    f = SOPS.get(op)
    if f is not None and isinstance(a, (int, Poly, DD)) or a is NAN:
        if isinstance(b, (int, Poly, DD)) or b is NAN:
            return f(a, b)
    if isinstance(a, (type(None), str, PyList, PyDict, tuple)) or isinstance(b, (type(None), str, SStr, PyList, PyDict, tuple)):
        return self.raise_b('TypeError', 'unsupported operand types for %s' % op)
    return self.opaque('operator %s on %r and %r' % (op, type(a).__name__, type(b).__name__))


# ---------------------------------------------------------------------------------------------------- comparison
def streq(a, b):
    """equality of strings one of which is symbolic"""
    if isinstance(a, str) and isinstance(b, str):
        return a == b
    if isinstance(a, SStr) and isinstance(b, SStr) and a == b:
        return True
    for x, y in ((a, b), (b, a)):
        if isinstance(x, SStr) and isinstance(y, str):
            if x.distinct:
                return False
            if x.parts and isinstance(x.parts[0], str) and not y.startswith(x.parts[0]):
                return False
            if x.parts and isinstance(x.parts[-1], str) and not y.endswith(x.parts[-1]):
                return False
    if isinstance(a, SStr) and isinstance(b, SStr) and (a.distinct or b.distinct):
        return False
    ka = repr(a.key()) if isinstance(a, SStr) else 'lit:' + a
    kb = repr(b.key()) if isinstance(b, SStr) else 'lit:' + b
    ka, kb = sorted((ka, kb))
    return pred(mk_atom('sym', 'streq %s == %s' % (ka, kb)))


def s_eq(a, b):
    if a is NAN or b is NAN:
        return False
    if isinstance(a, (str, SStr)) or isinstance(b, (str, SStr)):
        if isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)):
            return streq(a, b)
        return False
    if a is None or b is None:
        return a is b
    pa, pb = num(a), num(b)
    if pa is not None and pb is not None:
        if isinstance(a, int) and isinstance(b, int):
            return a == b
        return eq0(padd(pa, pscale(pb, -1)))
    if isinstance(a, Opaque):
        return a
    if isinstance(b, Opaque):
        return b
    return a is b


def s_cmp(op):
    def f(a, b):
        if a is BOT or b is BOT:
            return BOT
        if op == 'Eq':
            return s_eq(a, b)
        if op == 'NotEq':
            r = s_eq(a, b)
            return r if isinstance(r, Opaque) else g_not(r)
        if a is NAN or b is NAN:
            return False
        if isinstance(a, Opaque):
            return a
        if isinstance(b, Opaque):
            return b
        pa, pb = num(a), num(b)
        if pa is not None and pb is not None:
            if isinstance(a, int) and isinstance(b, int):
                return {'Lt': a < b, 'LtE': a <= b, 'Gt': a > b, 'GtE': a >= b}[op]
            d = padd(pa, pscale(pb, -1))
            if op == 'Lt':
                return cmp_lt(d)
            if op == 'Gt':
                return cmp_lt(pscale(d, -1))
            if op == 'LtE':
                return ge0(pscale(d, -1))
            return ge0(d)
        if isinstance(a, str) and isinstance(b, str):
            return {'Lt': a < b, 'LtE': a <= b, 'Gt': a > b, 'GtE': a >= b}[op]
        return Opaque('ordering of %s and %s' % (type(a).__name__, type(b).__name__))
    return f


SCMP = {op: s_cmp(op) for op in ('Eq', 'NotEq', 'Lt', 'LtE', 'Gt', 'GtE')}


def scal_cmp(op, a, b):
    f = SCMP[op]
    if isinstance(a, DD) or isinstance(b, DD):
        return lift(f, a, b)
    return f(a, b)


def compare(self, op, a, b):
    a, b = self.simp(a), self.simp(b)
    if a is UNSET or b is UNSET:
        return False
    if op in ('Is', 'IsNot'):
        r = is_(self, a, b)
        return g_not(r) if op == 'IsNot' else r
    if op in ('In', 'NotIn'):
        r = contains(self, b, a)
        return g_not(r) if op == 'NotIn' else r
    if isinstance(a, DD) and has_obj(a):
        return self.lift_cases(a, lambda l: self.compare(op, l, b))
    if isinstance(b, DD) and has_obj(b):
        return self.lift_cases(b, lambda l: self.compare(op, a, l))
    for x, y, nm in ((a, b, {'Eq': '__eq__', 'NotEq': '__ne__', 'Lt': '__lt__', 'Gt': '__gt__', 'LtE': '__le__', 'GtE': '__ge__'}[op]),):
        if isinstance(x, Instance):
            m, _ = x.cls.lookup(nm)
            if m is not None:
                return self.call(Bound(m, x), [y], {})
    if isinstance(a, Arr) or isinstance(b, Arr):
        if (isinstance(a, (str, SStr, type(None))) or isinstance(b, (str, SStr, type(None)))) and 'U' not in (dt_of(a), dt_of(b)):
            x = a if isinstance(a, Arr) else b
            r = np.empty(x.a.shape, dtype=object)
            r.fill(op == 'NotEq')
            return self.mkarr(r, 'b')
        return elementwise(self, lambda x, y: scal_cmp(op, x, y), (a, b), 'b')
    if op in ('Eq', 'NotEq'):
        r = eq(self, a, b)
        return g_not(r) if op == 'NotEq' else r
    if isinstance(a, (int, Poly, DD, str)) or a is NAN:
        if isinstance(b, (int, Poly, DD, str)) or b is NAN:
            if isinstance(a, str) != isinstance(b, str):
                return self.raise_b('TypeError', 'ordering not supported')
            return scal_cmp(op, a, b)
    if isinstance(a, Opaque):
        return a
    if isinstance(b, Opaque):
        return b
    if isinstance(a, tuple) and isinstance(b, tuple) or isinstance(a, PyList) and isinstance(b, PyList):
        xs, ys = self.iter_plain(a), self.iter_plain(b)
        if xs is not None and ys is not None:
            strict = {'LtE': 'Lt', 'GtE': 'Gt'}.get(op, op)

            def go(i):
                if i == len(xs) or i == len(ys):
                    return {'Lt': len(xs) < len(ys), 'LtE': len(xs) <= len(ys), 'Gt': len(xs) > len(ys), 'GtE': len(xs) >= len(ys)}[op]
                e = self.truth(self.compare('Eq', xs[i], ys[i]))
                return ite(e, go(i + 1), self.truth(self.compare(strict, xs[i], ys[i]))) if e is not True else go(i + 1)
            return go(0)
    if a is None or b is None or isinstance(a, (PyDict, ModuleVal, FuncVal)):
        return self.raise_b('TypeError', 'ordering not supported')
    return self.unkpred('ordering of %r and %r' % (type(a).__name__, type(b).__name__))


def is_(self, a, b):
    if isinstance(a, DD):
        return lift(lambda l: self.truth(is_(self, l, b)) if l is not BOT else BOT, a)
    if isinstance(b, DD):
        return lift(lambda l: self.truth(is_(self, a, l)) if l is not BOT else BOT, b)
    if isinstance(a, Opaque) or isinstance(b, Opaque):
        o = a if isinstance(a, Opaque) else b
        return self.unkpred(o.why)
    if isinstance(a, Arr) and isinstance(b, Arr):
        return a is b
    if isinstance(a, Poly) or isinstance(b, Poly):
        return a is b
    if isinstance(a, (str, int, SStr)) and isinstance(b, (str, int, SStr)):
        return type(a) is type(b) and a == b
    if isinstance(a, tuple) and isinstance(b, tuple):
        return a == b
    return a is b


DTYPES = {'numpy.float64': 'f', 'numpy.int64': 'i', 'numpy.bool_': 'b', 'numpy.object_': 'O', 'numpy.str_': 'U', 'float': 'f', 'int': 'i', 'bool': 'b',
          'object': 'O', 'str': 'U', 'numpy.double': 'f', 'numpy.float_': 'f', 'numpy.int_': 'i', 'float64': 'f', 'int64': 'i'}


def eq(self, a, b):
    a, b = self.simp(a), self.simp(b)
    if isinstance(a, ExtVal) or isinstance(b, ExtVal):
        x, y = [v.name if isinstance(v, (ExtVal, Builtin)) else v for v in (a, b)]
        if isinstance(x, str) and isinstance(y, str):
            if x in DTYPES and y in DTYPES:
                return DTYPES[x] == DTYPES[y]
            return x == y if isinstance(a, ExtVal) and isinstance(b, ExtVal) else False
    if isinstance(a, Opaque) or isinstance(b, Opaque):
        return self.unkpred((a if isinstance(a, Opaque) else b).why)
    seq = (tuple, PyList)
    if isinstance(a, seq) and isinstance(b, seq):
        if type(a) is not type(b):
            return False
        if isinstance(a, PyList) and a.kind == 'set' and b.kind == 'set':
            xs, ys = self.iter_plain(a), self.iter_plain(b)
            return {dkey(x) for x in xs} == {dkey(y) for y in ys}
        if isinstance(a, PyList):
            def f(s, t):
                if len(s) != len(t):
                    return False
                r = True
                for x, y in zip(s, t):
                    r = g_and(r, self.truth(self.compare('Eq', x, y)))
                return r
            return lift(f, a.v, b.v)
        if len(a) != len(b):
            return False
        r = True
        for x, y in zip(a, b):
            r = g_and(r, self.truth(self.compare('Eq', x, y)))
        return r
    if isinstance(a, PyDict) and isinstance(b, PyDict):
        if set(a.d) != set(b.d):
            return False
        r = True
        for k in a.d:
            r = g_and(r, self.truth(self.compare('Eq', a.d[k], b.d[k])))
        return r
    if isinstance(a, DD) or isinstance(b, DD):
        return scal_cmp('Eq', a, b)
    if isinstance(a, (int, Poly, str, SStr, type(None))) or a is NAN or isinstance(b, (int, Poly, str, SStr, type(None))) or b is NAN:
        if isinstance(a, ExtObj) or isinstance(b, ExtObj):
            x = a if isinstance(a, ExtObj) else b
            if x.kind == 'unknown':
                return self.unkpred('comparison of an external value')
        if not isinstance(a, ANY_OBJ + (tuple,)) and not isinstance(b, ANY_OBJ + (tuple,)):
            return s_eq(a, b)
        return False
    if isinstance(a, Instance) and isinstance(b, Instance) and a.cls is b.cls and a.cls.fields is not None and a is not b:
        r = True
        for n, *_ in a.cls.fields:
            r = g_and(r, self.truth(self.compare('Eq', a.attrs.get(n, UNSET), b.attrs.get(n, UNSET))))
        return r
    return a is b


def contains(self, c, x):
    if isinstance(c, DD):
        return self.lift_cases(c, lambda l: contains(self, l, x))
    if isinstance(c, Opaque) or isinstance(x, Opaque):
        return self.unkpred((c if isinstance(c, Opaque) else x).why)
    if isinstance(c, PyDict):
        x = self.simp(x)
        if isinstance(x, DD):
            return self.truth(self.lift_cases(x, lambda l: contains(self, c, l)))
        if isinstance(x, SStr):
            r = False
            for k, v in c.d.items():
                kk = c.keys[k]
                if isinstance(kk, (str, SStr)):
                    r = g_or(r, g_and(self.present(v), streq(x, kk)))
            return r
        v = c.d.get(dkey(x), UNSET)
        return self.present(v)
    if isinstance(c, (str, SStr)):
        if isinstance(c, str) and isinstance(x, str):
            return x in c
        if not isinstance(x, (str, SStr)):
            return self.raise_b('TypeError', 'in <string> requires string')
        if isinstance(c, str) and isinstance(x, SStr) and x.distinct:
            return False
        if isinstance(c, SStr) and isinstance(x, str) and any(isinstance(p, str) and x in p for p in c.parts):
            return True
        ka = repr(c.key()) if isinstance(c, SStr) else c
        kb = repr(x.key()) if isinstance(x, SStr) else x
        return pred(mk_atom('sym', 'strin %s in %s' % (kb, ka)))
    if isinstance(c, range):
        if isinstance(x, int):
            return x in c
    if isinstance(c, Arr):
        r = False
        for y in c.a.ravel():
            r = g_or(r, self.truth(self.compare('Eq', x, y)))
        return r
    items = self.iter_items(c)
    if items is None:
        return self.unkpred('membership in %r' % (c,))
    r = False
    for g, y in items:
        r = g_or(r, g_and(g, self.truth(self.compare('Eq', x, y)) if not same(x, y) and x is not y else True))
    return r


# ---------------------------------------------------------------------------------------------------- builtins
def B(self, name, fn):
    self.builtins[name] = Builtin(name, lambda I, a, k: guard(I, name, fn, a, k))


def guard(I, name, fn, a, k):
    try:
        return fn(I, *a, **k)
    except GatedIndex:
        raise
    except Unsupported as u:
        return I.opaque('%s: %s' % (name, u))
    except (TypeError, AttributeError, KeyError, IndexError) as u:
        return I.opaque('%s not modelled for these arguments (%s)' % (name, u))


def length(I, v):
    v = I.simp(v)
    if isinstance(v, DD):
        return I.lift_cases(v, lambda l: length(I, l))
    if isinstance(v, (tuple, str, range)):
        return len(v)
    if isinstance(v, PyList):
        return lift(lambda t: len(t), v.v)
    if isinstance(v, PyDict):
        n = 0
        for x in v.d.values():
            p = I.present(x)
            n = SOPS['Add'](n, lift(lambda b: 1 if b is True else 0, p))
        return n
    if isinstance(v, Arr):
        if v.a.ndim == 0:
            return I.raise_b('TypeError', 'len() of unsized object')
        return v.a.shape[0]
    if isinstance(v, Instance):
        m, _ = v.cls.lookup('__len__')
        if m is not None:
            return I.call(Bound(m, v), [], {})
    if isinstance(v, ExtObj):
        h = I.extmeth.get((v.kind, '__len__'))
        if h:
            return h(I, v, [], {})
        return Opaque('len of external object')
    if isinstance(v, SStr):
        return apoly(mk_atom('app', 'len', (repr(v.key()),), sign='0+'))
    if isinstance(v, Opaque):
        return v
    if v is None or isinstance(v, (int, Poly)):
        return I.raise_b('TypeError', 'object of this type has no len()')
    return I.opaque('len of %r' % (v,))


def b_range(I, *a):
    return range(*[I.toint(I.simp(x)) for x in a])


def b_iterlist(I, v):
    it = I.iter_items(v)
    if it is None:
        raise Unsupported('iteration over %r' % (v,))
    return it


def b_list(I, v=()):
    it = b_iterlist(I, v)
    return I.gated_list(it)


def b_tuple(I, v=()):
    it = I.iter_plain(v)
    if it is None:
        if isinstance(v, PyList):
            return v.v
        raise Unsupported('tuple of unknown value')
    return tuple(it)


def b_set(I, v=()):
    return I.mkset(I.iter_plain(v) or [])


def b_dict(I, v=None, **kw):
    d = I.mkdict()
    if v is not None:
        v = I.simp(v)
        if isinstance(v, Instance):
            m, _ = v.cls.lookup('keys')
            if m is not None:
                for k in I.iter_plain(I.call(Bound(m, v), [], {})):
                    d.keys[dkey(k)] = k
                    d.d[dkey(k)] = I.getitem(v, k)
                for k, x in kw.items():
                    d.d[k] = x
                    d.keys[k] = k
                return d
        if isinstance(v, PyDict):
            I.dict_update(d, v)
        else:
            items = I.iter_items(v)
            if items is None:
                raise Unsupported('dict of %r' % (v,))
            for g, it in items:
                p = I.iter_plain(it)
                kk = dkey(p[0])
                d.keys[kk] = p[0]
                d.d[kk] = p[1] if g is True else I.gite(g, p[1], d.d.get(kk, UNSET))
    for k, x in kw.items():
        d.keys[k] = k
        d.d[k] = x
    return d


def b_zip(I, *seqs, strict=None):
    if not seqs:
        return I.mklist([])
    cols = [I.iter_items(s) for s in seqs]
    if any(c is None for c in cols):
        raise Unsupported('zip of unknown value')
    n = min(len(c) for c in cols)
    out = []
    for i in range(n):
        g = True
        for c in cols:
            g = g_and(g, c[i][0])
        out.append((g, tuple(c[i][1] for c in cols)))
    return I.gated_list(out)


def b_enumerate(I, s, start=0):
    it = b_iterlist(I, s)
    if not all(g is True for g, _ in it):
        out = []
        for i, (g, v) in enumerate(it):
            out.append((g, (i + start, v)))
        return I.gated_list(out)
    return I.mklist([(SOPS['Add'](i, start), v) for i, (g, v) in enumerate(it)])


def numlist(I, xs):
    out = []
    for x in xs:
        if isinstance(x, Arr):
            if x.a.size != 1:
                I.raise_b('ValueError', 'The truth value of an array with more than one element is ambiguous')
                return None
            x = x.a.ravel()[0]
        out.append(x)
    return out


def extremum(name, xs):
    """max/min of gated numbers"""
    out = []
    seen = set()
    for x in xs:
        if isinstance(x, Opaque):
            return x
        k = ('p', x.id) if isinstance(x, Poly) else ('d', x.id) if isinstance(x, DD) else x
        if k not in seen:
            seen.add(k)
            out.append(x)
    if len(out) == 1:
        return out[0]
    if all(isinstance(x, int) for x in out):
        return max(out) if name == 'max' else min(out)
    ps = [num(x) if not isinstance(x, DD) else None for x in out]
    if all(p is not None and p.const() is not None for p in ps):
        cs = [p.const() for p in ps]
        return out[cs.index(max(cs) if name == 'max' else min(cs))]
    if any(x is NAN for x in out):
        return NAN
    # drop arguments that are dominated for sure
    keep = []
    for i, x in enumerate(out):
        dom = False
        for j, y in enumerate(out):
            if i == j or not isinstance(x, (Poly, int)) or not isinstance(y, (Poly, int)):
                continue
            d = padd(num(y), pscale(num(x), -1))
            s = sign_of(d)
            if name == 'min':
                s = {'+': '-', '-': '+', '0+': '0-', '0-': '0+'}.get(s, s)
            if s == '+' or (s == '0+' and j < i):
                dom = True
                break
        if not dom:
            keep.append(x)
    if len(keep) == 1:
        return keep[0]

    def leaf(*ys):
        for y in ys:
            if isinstance(y, Opaque) or y is BOT:
                return y
        if any(y is NAN for y in ys):
            return NAN
        zs = sorted({num(y).id: num(y) for y in ys}.values(), key=lambda p: p.id)
        if len(zs) == 1:
            return zs[0]
        if all(z.const() is not None for z in zs):
            return (max if name == 'max' else min)(zs, key=lambda z: z.const())
        sg = None
        ss = [sign_of(z) for z in zs]
        if all(s in ('+', '0+', '0') for s in ss) or name == 'max' and any(s in ('+', '0+', '0') for s in ss):
            sg = '+' if (all(s == '+' for s in ss) or name == 'max' and '+' in ss) else '0+'
        return apoly(mk_atom('app', name, tuple(zs), sign=sg))
    return lift(leaf, *keep)


REBUILD['max'] = lambda *a: extremum('max', list(a))
REBUILD['min'] = lambda *a: extremum('min', list(a))


def b_minmax(name):
    def f(I, *a, key=None, default=UNSET):
        if len(a) == 1:
            it = I.iter_items(a[0])
            if it is None:
                raise Unsupported('%s of unknown' % name)
            if not it:
                if default is not UNSET:
                    return default
                return I.raise_b('ValueError', '%s() arg is an empty sequence' % name)
            if not all(g is True for g, _ in it):
                raise Unsupported('%s of a gated sequence' % name)
            xs = [v for _, v in it]
        else:
            xs = list(a)
        if key is not None:
            ks = [I.call(key, [x], {}) for x in xs]
            if all(isinstance(k, int) for k in ks):
                return xs[ks.index(max(ks) if name == 'max' else min(ks))]
            ps = [num(k) if not isinstance(k, DD) else None for k in ks]
            if all(p is not None and p.const() is not None for p in ps):
                cs = [p.const() for p in ps]
                return xs[cs.index(max(cs) if name == 'max' else min(cs))]
            best, bk = xs[0], ks[0]
            for x, k in zip(xs[1:], ks[1:]):
                g = I.truth(I.compare('Gt' if name == 'max' else 'Lt', k, bk))
                if isinstance(g, Opaque):
                    raise Unsupported('%s with symbolic keys' % name)
                best, bk = I.gite(g, x, best), I.gite(g, k, bk)
            return I.simp(best)
        if all(isinstance(x, str) for x in xs):
            return (max if name == 'max' else min)(xs)
        xs = numlist(I, xs)
        if xs is None:
            return UNSET
        xs = [I.simp(x) for x in xs]
        for x in xs:
            if isinstance(x, ExtObj):
                return Opaque('%s of external values' % name)
            if not (isinstance(x, (int, Poly, DD, Opaque)) or x is NAN):
                return I.raise_b('TypeError', 'cannot order %r' % (x,))
        return extremum(name, xs)
    return f


def b_sum(I, v, start=0):
    it = b_iterlist(I, v)
    acc = start
    for g, x in it:
        y = I.binop('Add', acc, x)
        acc = y if g is True else I.gite(g, y, acc)
    return acc


def b_abs(I, v):
    v = I.simp(v)
    if isinstance(v, Arr):
        return I.map1(lambda x: abs(x) if isinstance(x, int) else g_abs(x), v, 'i' if v.dt in 'ib' else v.dt)
    if isinstance(v, int):
        return abs(v)
    if isinstance(v, Instance):
        m, _ = v.cls.lookup('__abs__')
        if m is not None:
            return I.call(Bound(m, v), [], {})
    if isinstance(v, (Poly, DD, Opaque)) or v is NAN:
        return g_abs(v)
    return I.raise_b('TypeError', 'bad operand type for abs()')


def scalar_of(I, v):
    v = I.simp(v)
    if isinstance(v, Arr):
        if v.a.size != 1:
            I.raise_b('TypeError', 'only length-1 arrays can be converted to Python scalars')
            return UNSET
        v = v.a.ravel()[0]
    return v


def b_int(I, v=0, base=None):
    v = scalar_of(I, v)
    if isinstance(v, str):
        try:
            return int(v) if base is None else int(v, base)
        except ValueError:
            return I.raise_b('ValueError', 'invalid literal for int()')
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, int) or v is UNSET:
        return v
    if v is NAN:
        return I.raise_b('ValueError', 'cannot convert float NaN to integer')
    if isinstance(v, (Poly, DD)):
        return lift(lambda l: int(l) if isinstance(l, (bool, int)) else I.trunc(l) if isinstance(l, Poly) else l, v)
    if isinstance(v, Opaque):
        return v
    if isinstance(v, SStr):
        return I.opaque('int of unknown string')
    return I.raise_b('TypeError', 'int() argument must be a number')


def b_float(I, v=0):
    v = scalar_of(I, v)
    if isinstance(v, str):
        if v.lower() in ('nan',):
            return NAN
        try:
            return const(Q(v))
        except ValueError:
            return I.raise_b('ValueError', 'could not convert string to float') if v.strip().lower() not in ('inf', '-inf') else INF if v.strip()[0] != '-' else g_neg(INF)
    if v is UNSET or v is NAN:
        return v
    if isinstance(v, (int, Poly, DD)):
        return lift(lambda l: num(l) if isinstance(l, (bool, int)) else l, v)
    if isinstance(v, Opaque):
        return v
    if isinstance(v, SStr):
        return I.opaque('float of unknown string')
    return I.raise_b('TypeError', 'float() argument must be a number')


def b_str(I, v=''):
    v = I.simp(v)
    if isinstance(v, DD):
        return I.lift_cases(v, lambda l: b_str(I, l))
    return I.to_str(v)


def b_repr(I, v):
    v = I.simp(v)
    if isinstance(v, DD):
        return I.lift_cases(v, lambda l: b_repr(I, l))
    return I.to_str(v, '', 114)


def b_round(I, v, n=None):
    v = scalar_of(I, v)
    if isinstance(v, int):
        return v
    f = (lambda x: app('round', x)) if n is None else (lambda x: app('round', x, n))
    c = v.const() if isinstance(v, Poly) else None
    if c is not None:
        return round(Q(c)) if n is None else const(round(Q(c), n))
    return f(v)


TYPE_TESTS = {
    'int': lambda v: isinstance(v, int), 'bool': lambda v: isinstance(v, bool),
    'float': lambda v: isinstance(v, Poly) or v is NAN, 'str': lambda v: isinstance(v, (str, SStr)),
    'list': lambda v: isinstance(v, PyList) and v.kind == 'list', 'set': lambda v: isinstance(v, PyList) and v.kind == 'set',
    'tuple': lambda v: isinstance(v, tuple), 'dict': lambda v: isinstance(v, PyDict),
    'numpy.ndarray': lambda v: isinstance(v, Arr), 'numpy.generic': lambda v: isinstance(v, Poly),
    'numpy.floating': lambda v: isinstance(v, Poly), 'numpy.float64': lambda v: isinstance(v, Poly),
    'numpy.integer': lambda v: False, 'numpy.bool_': lambda v: isinstance(v, bool),
    'numbers.Number': lambda v: isinstance(v, (int, Poly)), 'numbers.Real': lambda v: isinstance(v, (int, Poly)),
    'collections.abc.Sequence': lambda v: isinstance(v, (PyList, tuple, str, SStr)) and not (isinstance(v, PyList) and v.kind == 'set'),
    'collections.abc.Iterable': lambda v: isinstance(v, (PyList, tuple, str, SStr, Arr, PyDict, range)),
    'collections.abc.Mapping': lambda v: isinstance(v, PyDict), 'typing.Iterable': lambda v: isinstance(v, (PyList, tuple, str, Arr, PyDict)),
    'object': lambda v: True, 'NoneType': lambda v: v is None, 'range': lambda v: isinstance(v, range),
    'pandas.DataFrame': lambda v: isinstance(v, ExtObj) and v.kind == 'df', 'pandas.Series': lambda v: isinstance(v, ExtObj) and v.kind == 'series',
    'type': lambda v: isinstance(v, ClassVal), 'complex': lambda v: False, 'bytes': lambda v: False,
    'os.PathLike': lambda v: False, 'pathlib.Path': lambda v: isinstance(v, ExtObj) and v.kind == 'path',
}


def b_isinstance(I, v, t):
    v = I.simp(v)
    if isinstance(v, DD):
        return I.lift_cases(v, lambda l: b_isinstance(I, l, t))
    if isinstance(t, (tuple,)):
        r = False
        for x in t:
            r = g_or(r, b_isinstance(I, v, x))
        return r
    if isinstance(v, Opaque):
        return I.unkpred(v.why)
    if isinstance(t, ClassVal):
        if isinstance(v, Instance):
            return t in v.cls.mro()
        if isinstance(v, OpaqueInst):
            return v.cls is not None and t in v.cls.mro()
        if isinstance(v, ExcVal):
            return isinstance(v.cls, ClassVal) and t in v.cls.mro()
        if isinstance(v, NamedTup):
            return isinstance(v.cls, ClassVal) and t in v.cls.mro()
        return False
    n = t.name if isinstance(t, (Builtin, ExtVal)) else None
    if isinstance(v, ExcVal):
        return I.exc_is(v, t)
    f = TYPE_TESTS.get(n)
    if f is None:
        if isinstance(v, (int, str, Poly, Arr, PyList, PyDict, tuple)) or v is None:
            I.note('isinstance with %s' % n)
            return False
        return I.unkpred('isinstance with %s' % n)
    return f(v)


def b_hasattr(I, o, name):
    o = I.simp(o)
    if isinstance(o, DD):
        return I.lift_cases(o, lambda l: b_hasattr(I, l, name))
    if isinstance(o, (Opaque,)) or isinstance(o, ExtObj) and o.kind == 'unknown':
        return I.unkpred('hasattr')
    if isinstance(o, Instance) and isinstance(name, str):
        if name in o.attrs:
            v = o.attrs[name]
            if isinstance(v, DD):
                v = I.simp(v)
            return I.present(v)
        d, c = o.cls.lookup(name)
        return c is not None
    v = I.getattr0(o, name) if isinstance(name, str) else UNSET
    return I.present(v)


def b_getattr(I, o, name, *d):
    if not isinstance(name, str):
        nm = I.simp(name)
        if isinstance(nm, DD):
            return I.lift_cases(nm, lambda l: b_getattr(I, o, l, *d))
        if isinstance(nm, SStr) and isinstance(o, (Instance, OpaqueInst)):
            acc = UNSET
            for k, v in o.attrs.items():
                acc = I.gite(streq(nm, k), v, acc)
            return acc
        return I.opaque('getattr with unknown name')
    if d:
        return I.getattr_(o, name, d[0], True)
    return I.getattr_(o, name)


def b_setattr(I, o, name, v):
    if not isinstance(name, str):
        I.note('setattr with unknown name')
        I.ev('setattr_unknown', obj=o, name=name)
        return None
    I.setattr_(o, name, v)
    return None


def b_type(I, o, *a):
    o = I.simp(o)
    if isinstance(o, (Instance, OpaqueInst)):
        return o.cls
    if isinstance(o, ExcVal):
        return o.cls if isinstance(o.cls, ClassVal) else Builtin(o.cls, None)
    for n in ('bool', 'int', 'float', 'str', 'list', 'tuple', 'dict', 'set'):
        if TYPE_TESTS[n](o):
            return I.builtins[n]
    if isinstance(o, Arr):
        return ExtVal('numpy.ndarray')
    if o is None:
        return ExtVal('NoneType')
    return ExtObj('unknown', dict(src='type'))


def b_print(I, *a, **k):
    I.ev('print', args=a, kw=k)
    f = k.get('file')
    if isinstance(f, ExtObj):
        I.ev('file_print', file=f)
    return None


def b_open(I, path, mode='r', *a, **k):
    I.ev('open', path=path, mode=mode)
    return ExtObj('file', dict(path=path, mode=mode, src='open'), I.pc)


def b_iter(I, v):
    v = I.simp(v)
    if isinstance(v, PyList) and v.once:
        return v
    it = I.iter_items(v)
    if it is None:
        raise Unsupported('iter of unknown')
    return I.once(I.gated_list(it))


def b_next(I, v, *d):
    v = I.simp(v)
    if isinstance(v, Instance):
        m, _ = v.cls.lookup('__next__')
        if m is not None:
            return I.call(Bound(m, v), [], {})
    if not isinstance(v, PyList):
        raise Unsupported('next of %r' % (v,))
    if not v.once:
        return I.raise_b('TypeError', 'object is not an iterator')
    if isinstance(v.v, tuple):
        if v.v:
            x = v.v[0]
            I.consume(v, 1)
            return x
        return d[0] if d else I.raise_b('StopIteration')
    acc = d[0] if d else UNSET
    t0 = I.simp(v.v)
    r = lift(lambda t: t[0] if t else acc, t0)
    I.consume(v, 1)
    if not d:
        I.branch(lift(lambda t: len(t) == 0, t0), lambda: I.raise_b('StopIteration'), lambda: None)
        r = I.simp(r)
    return r


def iterator(fn, takes=True):
    """fn with a result that is an iterator; the iterators it is given are used up"""
    def f(I, *a, **k):
        r = fn(I, *a, **k)
        if takes:
            for x in a:
                I.consume(x)
        return I.once(r)
    return f


def takes(fn):
    """fn uses up the iterators it is given"""
    def f(I, *a, **k):
        r = fn(I, *a, **k)
        for x in a:
            I.consume(x)
        return r
    return f


def b_sorted(I, v, key=None, reverse=False):
    it = I.iter_plain(v)
    if it is None:
        raise Unsupported('sorted of unknown')
    ks = [I.call(key, [x], {}) if key is not None else x for x in it]
    cs = []
    for k in ks:
        if isinstance(k, (int, str)):
            cs.append(k)
        elif isinstance(k, Poly) and k.const() is not None:
            cs.append(k.const())
        elif isinstance(k, tuple) and all(isinstance(x, (int, str)) for x in k):
            cs.append(k)
        elif key is None and all(isinstance(x, (int, Poly, DD)) and not isinstance(x, bool) for x in it):
            r = I.iter_plain(I.call_ext('numpy.sort', [I.call_ext('numpy.array', [I.mklist(it)], {})], {}))
            return I.mklist(r[::-1] if reverse else r)
        elif len(it) <= 6 and all(isinstance(x, (int, Poly, DD)) for x in ks):
            # stable bubble sort of (key, value) pairs
            ks, it = list(ks), list(it)
            for n in range(len(it) - 1, 0, -1):
                for i in range(n):
                    g = I.truth(I.compare('Lt' if reverse else 'Gt', ks[i], ks[i + 1]))
                    if isinstance(g, Opaque):
                        raise Unsupported('sorting of symbolic values')
                    for l in (ks, it):
                        l[i], l[i + 1] = I.gite(g, l[i + 1], l[i]), I.gite(g, l[i], l[i + 1])
            return I.mklist([I.simp(x) for x in it])
        else:
            raise Unsupported('sorting of symbolic values')
    idx = sorted(range(len(cs)), key=lambda i: cs[i], reverse=bool(reverse))
    return I.mklist([it[i] for i in idx])


def b_quant(isall):
    def f(I, v):
        it = b_iterlist(I, v)
        r = isall
        for g, x in it:
            t = I.truth(x)
            if isall:
                r = g_and(r, g_or(g_not(g), t))
            else:
                r = g_or(r, g_and(g, t))
        return r
    return f


def b_map(I, fn, *seqs):
    cols = [I.iter_plain(s) for s in seqs]
    if any(c is None for c in cols):
        raise Unsupported('map over unknown')
    return I.mklist([I.call(fn, list(x), {}) for x in zip(*cols)])


def b_filter(I, fn, s):
    out = []
    for g, x in b_iterlist(I, s):
        c = I.truth(I.call(fn, [x], {})) if fn is not None else I.truth(x)
        out.append((g_and(g, c), x))
    return I.gated_list([o for o in out if o[0] is not False])


def b_reversed(I, v):
    it = I.iter_plain(v)
    if it is None:
        raise Unsupported('reversed of unknown')
    return I.mklist(it[::-1])


def b_import(I, name, *a, **k):
    if isinstance(name, str) and name in I.extmods:
        return I.extmods[name](I)
    if isinstance(name, str):
        return I.import_mod(name)
    I.ev('import_unknown', name=name)
    return I.opaque('import of an unknown module')


def b_globals(I):
    return ExtObj('globals', dict(module=I.frames[-1].module))


def b_vars(I, o=None):
    if isinstance(o, (Instance, OpaqueInst)):
        d = PyDict({}, o.pc0)
        d.d = o.attrs
        d.keys = {k: k for k in o.attrs}
        return d
    if isinstance(o, ModuleVal):
        return I.mkdict(o.env)
    raise Unsupported('vars')


def b_divmod(I, a, b):
    return (I.binop('FloorDiv', a, b), I.binop('Mod', a, b))


def b_callable(I, o):
    return isinstance(o, (FuncVal, Builtin, Bound, ClassVal, ExtVal)) or isinstance(o, Instance) and o.cls.lookup('__call__')[0] is not None


def b_issubclass(I, c, t):
    ts = t if isinstance(t, tuple) else (t,)
    if isinstance(c, ClassVal):
        return any(isinstance(x, ClassVal) and x in c.mro() for x in ts)
    return False


# ---------------------------------------------------------------------------------------------------- methods
def install_methods(self):
    M = self.methods = {}

    def m(t, n):
        def d(f):
            def g(I, o, a, k):
                if t == 'dict' and a and n in ('get', 'setdefault', 'pop'):
                    key = I.simp(a[0])
                    if isinstance(key, DD) and not any(isinstance(l, Poly) and l.const() is None for l in leaves(key)):
                        return I.lift_cases(key, lambda l: g(I, o, [l] + list(a[1:]), k))
                try:
                    return f(I, o, *a, **k)
                except GatedIndex:
                    raise
                except Unsupported as u:
                    return I.opaque('%s.%s: %s' % (t, n, u))
                except (TypeError, AttributeError, KeyError, IndexError, ValueError) as u:
                    return I.opaque('%s.%s not modelled for these arguments (%s)' % (t, n, u))
            M[(t, n)] = g
            return f
        return d

    # --- list / set
    @m('list', 'append')
    def _(I, o, x):
        I.touch(o, 'append')
        r = I.rel(o.pc0)
        I.remember(x)
        o.v = lift(lambda g, t: t + (x,) if g is True else t, r, o.v) if not isinstance(r, bool) else (lift(lambda t: t + (x,), o.v) if r else o.v)
        return None

    @m('list', 'extend')
    def _(I, o, v):
        I.list_extend(o, v)
        return None

    @m('list', 'insert')
    def _(I, o, i, x):
        I.touch(o, 'insert')
        i = I.toint(i)
        r = I.rel(o.pc0)

        def ins(t):
            l = list(t)
            l.insert(i, x)
            return tuple(l)
        o.v = I.gite(r, lift(ins, o.v), o.v)
        return None

    @m('list', 'pop')
    def _(I, o, i=-1):
        i = I.toint(i)
        if isinstance(o.v, tuple) and not -len(o.v) <= i < len(o.v):
            return I.raise_b('IndexError', 'pop from empty list')
        x = I.getitem(o, i)
        I.touch(o, 'pop')
        r = I.rel(o.pc0)

        def rem(t):
            l = list(t)
            if -len(l) <= i < len(l):
                l.pop(i)
            return tuple(l)
        o.v = I.gite(r, lift(rem, o.v), o.v)
        return x

    @m('list', 'appendleft')
    def _(I, o, x):
        return I.call(I.getattr_(o, 'insert'), [0, x], {})

    @m('list', 'popleft')
    def _(I, o):
        return I.call(I.getattr_(o, 'pop'), [0], {})

    @m('list', 'extendleft')
    def _(I, o, xs):
        for x in b_tuple(I, xs):
            I.call(I.getattr_(o, 'insert'), [0, x], {})

    @m('list', 'clear')
    def _(I, o):
        I.touch(o, 'clear')
        o.v = I.gite(I.rel(o.pc0), (), o.v)
        return None

    @m('list', 'reverse')
    def _(I, o):
        I.touch(o, 'reverse')
        o.v = I.gite(I.rel(o.pc0), lift(lambda t: t[::-1], o.v), o.v)
        return None

    @m('list', 'sort')
    def _(I, o, key=None, reverse=False):
        I.touch(o, 'sort')
        s = b_sorted(I, o, key, reverse)
        o.v = I.gite(I.rel(o.pc0), s.v, o.v)
        return None

    @m('list', 'copy')
    def _(I, o):
        return I.mklist(o.v)

    @m('list', 'index')
    def _(I, o, x):
        it = I.iter_plain(o)
        for i, y in enumerate(it):
            c = I.truth(I.compare('Eq', x, y))
            if c is True:
                return i
            if c is not False:
                raise Unsupported('index of symbolic value')
        return I.raise_b('ValueError', 'not in list')

    @m('list', 'remove')
    def _(I, o, x):
        it = I.iter_plain(o)
        for i, y in enumerate(it):
            c = I.truth(I.compare('Eq', x, y))
            if c is True:
                I.touch(o, 'remove')
                o.v = I.gite(I.rel(o.pc0), tuple(it[:i] + it[i + 1:]), o.v)
                return None
            if c is not False:
                raise Unsupported('remove of symbolic value')
        return I.raise_b('ValueError', 'not in list')

    @m('list', 'count')
    def _(I, o, x):
        acc = 0
        for g, y in I.iter_items(o):
            c = g_and(g, I.truth(I.compare('Eq', x, y)))
            acc = SOPS['Add'](acc, lift(lambda b: 1 if b is True else 0, c))
        return acc
    M[('tuple', 'count')] = M[('list', 'count')]
    M[('tuple', 'index')] = M[('list', 'index')]

    @m('list', '__len__')
    def _(I, o):
        return length(I, o)

    @m('set', 'add')
    def _(I, o, x):
        I.touch(o, 'add')
        it = I.iter_plain(o) or []
        if dkey(x) not in [dkey(y) for y in it]:
            o.v = I.gite(I.rel(o.pc0), tuple(it) + (x,), o.v)
        return None

    @m('set', 'union')
    def _(I, o, *s):
        r = list(I.iter_plain(o))
        for x in s:
            r += I.iter_plain(x)
        return I.mkset(r)

    @m('set', 'difference')
    def _(I, o, s):
        k = [dkey(y) for y in I.iter_plain(s)]
        return I.mkset([x for x in I.iter_plain(o) if dkey(x) not in k])

    @m('set', 'intersection')
    def _(I, o, s):
        k = [dkey(y) for y in I.iter_plain(s)]
        return I.mkset([x for x in I.iter_plain(o) if dkey(x) in k])

    @m('set', 'issubset')
    def _(I, o, s):
        k = [dkey(y) for y in I.iter_plain(s)]
        return all(dkey(x) in k for x in I.iter_plain(o))

    # --- dict
    @m('dict', 'keys')
    def _(I, o):
        return I.gated_list([(I.present(v), o.keys[k]) for k, v in o.d.items()])

    @m('dict', 'values')
    def _(I, o):
        return I.gated_list([(I.present(v), v) for k, v in o.d.items()])

    @m('dict', 'items')
    def _(I, o):
        return I.gated_list([(I.present(v), (o.keys[k], v)) for k, v in o.d.items()])

    @m('dict', 'get')
    def _(I, o, k, d=None):
        k = I.simp(k)
        if isinstance(k, DD):
            return I.lift_cases(k, lambda l: M[('dict', 'get')](I, o, [l, d], {}))
        if isinstance(k, SStr) and dkey(k) not in o.d:
            acc = d
            for kk, v in o.d.items():
                if isinstance(o.keys[kk], (str, SStr)):
                    acc = I.gite(g_and(streq(k, o.keys[kk]), I.present(v)), v, acc)
            return acc
        v = o.d.get(dkey(k), UNSET)
        if v is UNSET:
            return d
        if isinstance(v, DD):
            p = I.present(v)
            if p is not True:
                return I.gite(p, v, d)
        return v

    @m('dict', 'pop')
    def _(I, o, k, *d):
        v = o.d.get(dkey(k), UNSET)
        if v is UNSET:
            if d:
                return d[0]
            return I.raise_b('KeyError', k)
        I.touch(o, 'pop')
        r = I.rel(o.pc0)
        o.d[dkey(k)] = I.gite(r, UNSET, v)
        if o.d[dkey(k)] is UNSET:
            del o.d[dkey(k)]
        if isinstance(v, DD) and d:
            p = I.present(v)
            if p is not True:
                return I.gite(p, v, d[0])
        return v

    @m('dict', 'popitem')
    def _(I, o):
        if not o.d:
            return I.raise_b('KeyError', 'popitem(): dictionary is empty')
        k = list(o.d)[-1]
        if I.present(o.d[k]) is not True:
            raise Unsupported('popitem of a gated dictionary')
        key = o.keys[k]
        return (key, I.call(I.getattr_(o, 'pop'), [key], {}))

    @m('dict', 'update')
    def _(I, o, v=None, **kw):
        if v is not None:
            I.dict_update(o, v)
        if kw:
            I.dict_update(o, PyDict(kw))
        return None

    @m('dict', 'setdefault')
    def _(I, o, k, d=None):
        p = I.present(o.d.get(dkey(k), UNSET))
        if p is not True:
            I.touch(o, 'setdefault')
            old = o.d.get(dkey(k), UNSET)
            new = d if old is UNSET else I.gite(p, old, d)
            r = I.rel(o.pc0)
            o.keys[dkey(k)] = k
            o.d[dkey(k)] = new if r is True else I.gite(r, new, old)
            return new
        return o.d[dkey(k)]

    @m('dict', 'copy')
    def _(I, o):
        d = I.mkdict()
        d.d = dict(o.d)
        d.keys = dict(o.keys)
        d.extra = o.extra
        return d

    @m('dict', 'clear')
    def _(I, o):
        I.touch(o, 'clear')
        r = I.rel(o.pc0)
        if r is True:
            o.d.clear()
        else:
            for k in list(o.d):
                o.d[k] = I.gite(r, UNSET, o.d[k])
        return None

    # --- str
    def strm(n):
        @m('str', n)
        def f(I, o, *a, **k):
            o = I.simp(o)
            a = [I.simp(x) for x in a]
            if isinstance(o, str) and all(isinstance(x, (str, int, tuple)) or x is None for x in a):
                r = getattr(o, n)(*a, **k)
                if isinstance(r, list):
                    return I.mklist(r)
                return r
            if n in ('startswith', 'endswith', 'isdigit', 'isalpha', 'isalnum', 'isidentifier', 'isupper', 'islower', 'isspace', 'isnumeric', '__contains__'):
                if isinstance(o, SStr) and a and isinstance(a[0], str):
                    if n == 'endswith' and isinstance(o.parts[-1], str) and len(o.parts[-1]) >= len(a[0]):
                        return o.parts[-1].endswith(a[0])
                    if n == 'startswith' and isinstance(o.parts[0], str) and len(o.parts[0]) >= len(a[0]):
                        return o.parts[0].startswith(a[0])
                    if n == '__contains__':
                        return contains(I, o, a[0])
                return pred(mk_atom('sym', 'str.%s %s %s' % (n, repr(dkey(o)), repr(tuple(dkey(x) for x in a)))))
            if n in ('find', 'count', 'index', '__len__'):
                return apoly(mk_atom('app', 'str.' + n, (repr(dkey(o)), repr(tuple(dkey(x) for x in a)))))
            if n in ('split', 'rsplit', 'splitlines', 'partition', 'rpartition'):
                raise Unsupported('split of unknown string')
            # transformed unknown string: a function of the original
            d = isinstance(o, SStr) and o.distinct and n in ('lower', 'upper', 'strip', 'casefold', 'rstrip', 'lstrip', 'title', 'capitalize')
            return SStr(((n, dkey(o), tuple(dkey(x) for x in a)),), d)
    for n in ('startswith', 'endswith', 'isdigit', 'isalpha', 'isalnum', 'isidentifier', 'isupper', 'islower', 'isspace', 'isnumeric',
              '__contains__', 'find', 'count', 'index', 'split', 'rsplit', 'splitlines', 'partition', 'rpartition', 'lower', 'upper',
              'strip', 'rstrip', 'lstrip', 'title', 'capitalize', 'casefold', 'replace', 'zfill', 'ljust', 'rjust', 'center', 'swapcase',
              'removeprefix', 'removesuffix', 'encode', 'expandtabs'):
        strm(n)

    @m('str', 'join')
    def _(I, o, v):
        it = I.iter_plain(v)
        if it is None:
            raise Unsupported('join')
        parts = []
        for i, x in enumerate(it):
            if i:
                parts.append(o)
            if not isinstance(x, (str, SStr)):
                return I.raise_b('TypeError', 'sequence item: expected str instance')
            parts.append(x)
        return mkstr(parts) if parts else ''

    @m('str', 'format')
    def _(I, o, *a, **k):
        import re
        if isinstance(o, str):
            parts = []
            pos = 0
            auto = 0
            for mm in re.finditer(r'\{\{|\}\}|\{([^{}]*)\}', o):
                parts.append(o[pos:mm.start()])
                pos = mm.end()
                t = mm.group(0)
                if t in ('{{', '}}'):
                    parts.append(t[0])
                    continue
                f, _, spec = mm.group(1).partition(':')
                f, _, conv = f.partition('!')
                base = re.match(r'[\w]*', f).group(0)
                if f != base:
                    raise Unsupported('format field')
                if base == '':
                    x = a[auto]
                    auto += 1
                elif base.isdigit():
                    x = a[int(base)]
                else:
                    x = k[base]
                parts.append(I.to_str(x, spec))
            parts.append(o[pos:])
            return mkstr(parts)
        raise Unsupported('format')

    # --- numbers
    @m('num', 'item')
    def _(I, o):
        return o

    @m('num', 'astype')
    def _(I, o, dt, copy=True):
        n = dt.name if isinstance(dt, (Builtin, ExtVal)) else dt
        return b_int(I, o) if n in ('int', 'numpy.int64', 'numpy.int32') else b_float(I, o) if n in ('float', 'numpy.float64') else o

    @m('num', 'is_integer')
    def _(I, o):
        if isinstance(o, int):
            return True
        return I.unkpred('is_integer')

    for n in ('max', 'min', 'sum', 'mean', 'copy', 'flatten', 'squeeze', 'conjugate'):
        @m('num', n)
        def f(I, o, *a, n=n, **k):
            if n == 'flatten':
                return I.mkarr(np.array([o], dtype=object), sdt(o))
            return o

    def T(I, o):
        return o
    T.is_value = True
    M[('num', 'T')] = T
    M[('num', 'real')] = T

    def sh(I, o):
        return ()
    sh.is_value = True
    M[('num', 'shape')] = sh

    def nd(I, o):
        return 0
    nd.is_value = True
    M[('num', 'ndim')] = nd


# ---------------------------------------------------------------------------------------------------- os, sys, files
def pathjoin(I, *parts):
    out = []
    for p in parts:
        p = I.simp(p)
        if isinstance(p, ExtObj) and p.kind == 'path':
            p = p.data['s']
        if isinstance(p, DD):
            raise Unsupported('gated path')
        if not isinstance(p, (str, SStr)):
            if isinstance(p, Opaque):
                return p
            return I.raise_b('TypeError', 'expected str, bytes or os.PathLike object')
        if out and isinstance(p, str) and p.startswith('/'):
            out = [p]
            continue
        if out:
            last = out[-1]
            end = last[-1:] if isinstance(last, str) else (last.parts[-1][-1:] if isinstance(last.parts[-1], str) else '')
            if end != '/':
                out.append('/')
        out.append(p)
    return mkstr(out)


def install_std(self):
    E = self.ext
    X = self.extattr
    H = self.extmeth

    def e(*names):
        def d(f):
            for n in names:
                E[n] = lambda I, a, k, f=f: f(I, *a, **k)
            return f
        return d

    e('os.path.join')(lambda I, *p: pathjoin(I, *p))

    @e('os.path.basename')
    def _(I, p):
        if isinstance(p, str):
            return p.rsplit('/', 1)[-1]
        return SStr((('basename', dkey(p)),))

    @e('os.path.dirname')
    def _(I, p):
        if isinstance(p, str):
            return p.rsplit('/', 1)[0] if '/' in p else ''
        return SStr((('dirname', dkey(p)),))

    @e('os.path.splitext')
    def _(I, p):
        if isinstance(p, str):
            import os.path
            return os.path.splitext(p)
        return (SStr((('stem', dkey(p)),)), SStr((('ext', dkey(p)),)))

    for n in ('abspath', 'realpath', 'normpath', 'expanduser', 'expandvars', 'normcase'):
        def f(I, p='', n=n, **k):
            I.ev('env_read', what='os.path.' + n) if n in ('abspath', 'realpath') else None
            return SStr(((n, dkey(p)),))
        E['os.path.' + n] = lambda I, a, k, f=f: f(I, *a)

    def there(p, n='exists'):
        """unknown fact about the file system, the same for every question about the same path"""
        if isinstance(p, ExtObj) and p.kind == 'path':
            p = p.data['s']
        return pred(mk_atom('sym', 'os.path.%s(%s)' % ('isfile' if n in ('isfile', 'is_file') else 'exists', repr(dkey(p)))))

    def mkdir(I, p, exist_ok, parents):
        if isinstance(p, ExtObj) and p.kind == 'path':
            p = p.data['s']
        I.ev('mkdir', path=p, exist_ok=exist_ok, parents=parents)
        if exist_ok is not True:
            g = there(p)
            if exist_ok is not False:
                g = g_and(g, g_not(I.truth(exist_ok)))
            I.raise_if(g, ExcVal('FileExistsError', ('the directory exists',)))
        return None

    for n in ('exists', 'isfile', 'isdir'):
        def f(I, p, n=n):
            I.ev('env_read', what='os.path.' + n)
            return there(p, n)
        E['os.path.' + n] = lambda I, a, k, f=f: f(I, *a)

    @e('os.getcwd')
    def _(I):
        I.ev('env_read', what='os.getcwd')
        return strsym('cwd')

    @e('os.makedirs')
    def _(I, name, mode=0o777, exist_ok=False):
        return mkdir(I, name, exist_ok, True)

    @e('os.mkdir')
    def _(I, path, mode=0o777, **k):
        return mkdir(I, path, False, False)

    @e('os.environ.get', 'os.getenv')
    def _(I, n, d=None):
        I.ev('env_read', what='os.environ')
        return I.opaque('environment variable')

    for n in ('os.remove', 'os.unlink', 'os.rmdir', 'os.removedirs', 'shutil.rmtree'):
        E[n] = lambda I, a, k, n=n: I.ev('delete', path=a[0], fn=n)
    for n in ('os.rename', 'os.replace', 'shutil.move'):
        E[n] = lambda I, a, k, n=n: I.ev('file_move', src=a[0], dst=a[1], fn=n)
    for n in ('shutil.copy', 'shutil.copy2', 'shutil.copyfile', 'shutil.copytree'):
        def f(I, a, k, n=n):
            src = a[0] if a else k.get('src')
            dst = a[1] if len(a) > 1 else k.get('dst')
            I.ev('file_copy', src=src, dst=dst, fn=n)
            return dst
        E[n] = f
    for n in ('os.chdir', 'os.system', 'subprocess.run', 'subprocess.call', 'subprocess.Popen', 'subprocess.check_call', 'subprocess.check_output'):
        E[n] = lambda I, a, k, n=n: I.ev('process', fn=n, args=a) or ExtObj('unknown')

    @e('sys.exit', 'exit', 'quit', 'os._exit')
    def _(I, code=None):
        I.raise_(ExcVal('SystemExit', (code,)))
        return UNSET
    self.builtins['exit'] = Builtin('exit', lambda I, a, k: E['sys.exit'](I, a, k))
    self.builtins['quit'] = self.builtins['exit']
    X['sys.path'] = lambda I: ExtObj('syspath')
    X['sys.argv'] = lambda I: I.opaque('command line')
    X['sys.modules'] = lambda I: ExtObj('unknown', dict(src='sys.modules'))
    X['os.environ'] = lambda I: ExtObj('environ')
    X['os.sep'] = lambda I: '/'

    def envget(I, o, a, k):
        I.ev('env_read', what='os.environ')
        return I.opaque('environment variable')
    H[('environ', 'get')] = envget
    H[('environ', '__getitem__')] = envget
    for n in ('insert', 'append', 'extend', 'remove', 'pop'):
        H[('syspath', n)] = lambda I, o, a, k, n=n: I.ev('sys_path', op=n, args=a)
    H[('syspath', '__setitem__')] = lambda I, o, a, k: I.ev('sys_path', op='set', args=a)
    H[('syspath', 'binop')] = lambda I, o, a, k: ExtObj('syspath')

    def impure(name):
        def f(I, a, k):
            I.ev('impure', fn=name)
            return I.opaque('value of %s' % name)
        return f
    for n in ('time.time', 'time.perf_counter', 'time.monotonic', 'time.process_time', 'time.localtime', 'time.gmtime',
              'datetime.datetime.now', 'datetime.datetime.utcnow', 'datetime.date.today', 'timeit.default_timer',
              'random.random', 'random.uniform', 'random.gauss', 'random.choice', 'random.randint', 'random.shuffle', 'random.seed',
              'os.urandom', 'os.getpid', 'uuid.uuid4'):
        E[n] = impure(n)
    E['time.strftime'] = lambda I, a, k: (I.ev('impure', fn='time.strftime'), SStr((('time', a[0] if a else ''),)))[1]
    E['time.sleep'] = lambda I, a, k: None

    # importlib
    @e('importlib.import_module')
    def _(I, name, *a):
        return b_import(I, name)

    @e('importlib.util.spec_from_file_location')
    def _(I, name, path=None, **k):
        I.ev('import_file', path=path)
        return ExtObj('spec', dict(path=path, name=name))

    @e('importlib.util.module_from_spec')
    def _(I, spec):
        if isinstance(spec, ExtObj) and I.extmods.get('variables'):
            return I.extmods['variables'](I)
        return ExtObj('unknown', dict(src='module'))
    H[('spec', '__getattr__')] = None
    del H[('spec', '__getattr__')]

    # argparse: what the command line may hold is an input of the analysis (self.cli)
    E['argparse.ArgumentParser'] = lambda I, a, k: ExtObj('argparser', dict(args=[]), I.pc)

    def add_argument(I, o, a, k):
        o.data['args'].append((a, k))
        return ExtObj('unknown', dict(src='argparse action'))
    H[('argparser', 'add_argument')] = add_argument
    H[('argparser', 'add_argument_group')] = lambda I, o, a, k: o
    H[('argparser', 'add_mutually_exclusive_group')] = lambda I, o, a, k: o
    H[('argparser', 'set_defaults')] = lambda I, o, a, k: None

    def parse_args(I, o, a, k):
        at = {}
        for names, kw in o.data['args']:
            longs = [n for n in names if isinstance(n, str) and n.startswith('--')]
            nm = kw.get('dest') or (longs[0][2:] if longs else names[0].lstrip('-')).replace('-', '_')
            at[nm] = I.cli_value(names, nm, kw)
        I.ev('parse_args', names=list(at))
        return OpaqueInst('args', at)
    H[('argparser', 'parse_args')] = parse_args
    H[('argparser', 'parse_known_args')] = lambda I, o, a, k: (parse_args(I, o, a, k), I.mklist([]))

    def perr(I, o, a, k):
        I.raise_(ExcVal('SystemExit', (2,)))
        return UNSET
    H[('argparser', 'error')] = perr
    H[('argparser', 'exit')] = lambda I, o, a, k: (I.raise_(ExcVal('SystemExit', (a[0] if a else k.get('status', 0),))), UNSET)[1]
    H[('argparser', 'print_help')] = lambda I, o, a, k: None

    # dataclasses, typing, contextlib, functools, copy, warnings, logging
    E['dataclasses.field'] = lambda I, a, k: ExtObj('field', dict(k))

    def dc(I, a, k):
        if a:
            return I.make_dataclass(a[0])
        return Builtin('dataclass', lambda I2, a2, k2: I2.make_dataclass(a2[0]))
    E['dataclasses.dataclass'] = dc

    def replace(I, a, k):
        o = a[0]
        kw = {n: o.attrs[n] for n, d, f, ini in o.cls.fields if ini and n in o.attrs}
        kw.update(k)
        return I.instantiate(o.cls, [], kw)
    E['dataclasses.replace'] = replace

    def asdict(I, a, k):
        o = a[0]
        return I.mkdict({n: o.attrs[n] for n, *_ in o.cls.fields if n in o.attrs})
    E['dataclasses.asdict'] = asdict

    def dfields(I, a, k):
        c = a[0].cls if isinstance(a[0], (Instance, OpaqueInst)) else a[0]
        return tuple(OpaqueInst('field', {'name': f[0]}) for f in c.fields)
    E['dataclasses.fields'] = dfields
    E['contextlib.suppress'] = lambda I, a, k: ExtObj('suppress', dict(types=a))
    E['contextlib.nullcontext'] = lambda I, a, k: ExtObj('nullcontext')
    E['copy.deepcopy'] = lambda I, a, k: copyval(I, a[0], True)
    E['copy.copy'] = lambda I, a, k: copyval(I, a[0], False)
    E['typing.cast'] = lambda I, a, k: a[1]
    for n in ('typing.TypeVar', 'typing.NewType'):
        E[n] = lambda I, a, k: ExtObj('unknown', dict(src='typing'))
    E['warnings.warn'] = lambda I, a, k: I.ev('warn', args=a)
    for n in ('warnings.filterwarnings', 'warnings.simplefilter'):
        E[n] = lambda I, a, k: None
    E['warnings.catch_warnings'] = lambda I, a, k: ExtObj('nullcontext')
    E['numpy.errstate'] = lambda I, a, k: ExtObj('nullcontext')
    E['numpy.seterr'] = lambda I, a, k: None
    E['numpy.set_printoptions'] = lambda I, a, k: None
    E['functools.partial'] = lambda I, a, k: Builtin('partial', lambda I2, a2, k2: I2.call(a[0], list(a[1:]) + list(a2), {**k, **k2}))

    def freduce(I, a, k):
        it = I.iter_plain(a[1])
        if it is None:
            raise Unsupported('reduce')
        acc = a[2] if len(a) > 2 else it.pop(0)
        for x in it:
            acc = I.call(a[0], [acc, x], {})
        return acc
    E['functools.reduce'] = freduce
    for opn, nm in (('Add', 'add'), ('Sub', 'sub'), ('Mult', 'mul'), ('Div', 'truediv'), ('Pow', 'pow'), ('FloorDiv', 'floordiv'),
                    ('Mod', 'mod'), ('MatMult', 'matmul'), ('BitAnd', 'and_'), ('BitOr', 'or_'), ('Add', 'concat')):
        E['operator.' + nm] = lambda I, a, k, opn=opn: I.binop(opn, a[0], a[1])
    for opn, nm in (('Eq', 'eq'), ('NotEq', 'ne'), ('Lt', 'lt'), ('LtE', 'le'), ('Gt', 'gt'), ('GtE', 'ge'), ('Is', 'is_'),
                    ('IsNot', 'is_not')):
        E['operator.' + nm] = lambda I, a, k, opn=opn: I.compare(opn, a[0], a[1])
    for opn, nm in (('USub', 'neg'), ('UAdd', 'pos'), ('Invert', 'invert')):
        E['operator.' + nm] = lambda I, a, k, opn=opn: I.unop(opn, a[0])
    E['operator.not_'] = lambda I, a, k: g_not(I.truth(a[0]))
    E['operator.truth'] = lambda I, a, k: I.truth(a[0])
    E['operator.contains'] = lambda I, a, k: I.compare('In', a[1], a[0])
    E['operator.getitem'] = lambda I, a, k: I.getitem(a[0], a[1])
    E['operator.setitem'] = lambda I, a, k: I.setitem(a[0], a[1], a[2])

    def dotget(I, o, n):
        for p in n.split('.'):
            o = I.getattr_(o, p)
        return o

    def getter(one):
        def f(I, a, k):
            return Builtin('getter', lambda I2, a2, k2: one(I2, a2[0], a[0]) if len(a) == 1 else tuple(one(I2, a2[0], x) for x in a))
        return f
    E['operator.attrgetter'] = getter(dotget)
    E['operator.itemgetter'] = getter(lambda I, o, n: I.getitem(o, n))
    E['operator.methodcaller'] = lambda I, a, k: Builtin('methodcaller', lambda I2, a2, k2: I2.call(I2.getattr_(a2[0], a[0]), list(a[1:]), dict(k)))
    E['dataclasses.astuple'] = lambda I, a, k: tuple(a[0].attrs[n] for n, *_ in a[0].cls.fields)

    def ichain(I, a, k):
        out = []
        for s in a:
            out += I.iter_items(s)
            I.consume(s)
        return I.gated_list(out)

    def it_(name, fn):
        E['itertools.' + name] = lambda I, a, k: I.once(fn(I, a, k))
    it_('chain', ichain)
    it_('chain.from_iterable', lambda I, a, k: ichain(I, I.iter_plain(a[0]), k))

    def seq(I, v):
        r = I.iter_plain(v)
        if r is None:
            raise Unsupported('iteration over %r' % (v,))
        I.consume(v)
        return r

    def plain(name, fn):
        """itertools functions of plain sequences and integers"""
        it_(name, lambda I, a, k: I.mklist([tuple(x) if isinstance(x, (list, tuple)) and not isinstance(x, NamedTup) else x
                                            for x in fn(*[x if isinstance(x, (int, type(None))) else seq(I, x) for x in a], **k)]))
    import itertools
    plain('product', itertools.product)
    plain('combinations', itertools.combinations)
    plain('combinations_with_replacement', itertools.combinations_with_replacement)
    plain('permutations', itertools.permutations)
    plain('zip_longest', itertools.zip_longest)
    it_('islice', lambda I, a, k: islice(I, *a))
    it_('cycle', lambda I, a, k: I.mklist((seq(I, a[0]) * 4000)[:4000]))
    it_('starmap', lambda I, a, k: I.mklist([I.call(a[0], seq(I, x), {}) for x in seq(I, a[1])]))
    it_('repeat', lambda I, a, k: I.mklist([a[0]] * (I.toint(a[1]) if len(a) > 1 else I.toint(k['times']) if 'times' in k else 4000)))
    it_('compress', lambda I, a, k: I.gated_list([(I.truth(t), x) for x, t in zip(seq(I, a[0]), seq(I, a[1]))]))
    it_('filterfalse', lambda I, a, k: I.gated_list([(g_not(I.truth(I.call(a[0], [x], {}) if a[0] is not None else x)), x) for x in seq(I, a[1])]))

    def islice(I, s, *r):
        n = [None if x is None else I.toint(x) for x in r]
        sl = slice(*n)
        items = I.iter_plain(s)
        if items is None:
            raise Unsupported('islice')
        if isinstance(s, PyList) and s.once:
            I.consume(s, None if sl.stop is None else sl.stop)
        return I.mklist(items[sl])

    def while_(take):
        def f(I, a, k):
            out, on = [], True
            for x in seq(I, a[1]):
                t = I.truth(I.call(a[0], [x], {}))
                on = g_and(on, t)
                out.append((on if take else g_not(on), x))
            return I.gated_list([o for o in out if o[0] is not False])
        return f
    it_('takewhile', while_(True))
    it_('dropwhile', while_(False))

    def groupby(I, a, k):
        key = a[1] if len(a) > 1 else k.get('key')
        out = []
        for x in seq(I, a[0]):
            kv = I.call(key, [x], {}) if key is not None else x
            e = I.truth(I.compare('Eq', out[-1][0], kv)) if out else False
            if not isinstance(e, bool):
                raise Unsupported('groupby of symbolic values')
            if e:
                out[-1][1].append(x)
            else:
                out.append((kv, [x]))
        return I.mklist([(kv, I.once(I.mklist(xs))) for kv, xs in out])
    it_('groupby', groupby)

    def ipairwise(I, a, k):
        it = seq(I, a[0])
        return I.mklist(list(zip(it, it[1:])))
    it_('pairwise', ipairwise)

    def iaccum(I, a, k):
        out = []
        fn = a[1] if len(a) > 1 else k.get('func')
        acc = k.get('initial')
        if acc is not None:
            out.append(acc)
        for x in seq(I, a[0]):
            acc = x if acc is None else (I.call(fn, [acc, x], {}) if fn is not None else I.binop('Add', acc, x))
            out.append(acc)
        return I.mklist(out)
    it_('accumulate', iaccum)

    def icount(I, a, k):
        s = a[0] if a else k.get('start', 0)
        d = a[1] if len(a) > 1 else k.get('step', 1)
        return I.mklist([I.binop('Add', s, I.binop('Mult', d, i)) for i in range(4000)])
    it_('count', icount)

    def namedtuple(I, a, k):
        f = I.iter_plain(a[1]) if not isinstance(a[1], str) else a[1].replace(',', ' ').split()
        if not all(isinstance(x, str) for x in f):
            raise Unsupported('namedtuple fields')
        c = ClassVal(a[0], a[0], [], I.frames[-1].module)
        c.attrs['_fields'] = tuple(f)
        d = I.iter_plain(k['defaults']) if k.get('defaults') is not None else []
        c.attrs['_field_defaults'] = dict(zip(f[len(f) - len(d):], d))
        return c
    E['collections.namedtuple'] = namedtuple
    E['typing.NamedTuple'] = lambda I, a, k: namedtuple(I, [a[0], I.mklist([I.iter_plain(p)[0] for p in I.iter_plain(a[1])])], {})

    def namespace(I, a, k):
        o = Instance(ClassVal('SimpleNamespace', 'types.SimpleNamespace', [], None), I.pc)
        I.alloc(o)
        o.attrs.update(k)
        return o
    E['types.SimpleNamespace'] = namespace
    E['argparse.Namespace'] = namespace
    E['collections.deque'] = lambda I, a, k: takes(b_list)(I, *a[:1]) if k.get('maxlen') is None and len(a) < 2 else I.opaque('deque of bounded length')

    def counter(I, a, k):
        d = I.mkdict()
        for x in (seq(I, a[0]) if a else ()):
            kk = dkey(x)
            d.keys[kk] = x
            d.d[kk] = SOPS['Add'](d.d.get(kk, 0), 1)
        d.extra = lambda key: 0
        return d
    E['collections.Counter'] = counter
    E['enum.auto'] = lambda I, a, k: ExtObj('auto')
    E['enum.unique'] = lambda I, a, k: a[0]
    E['collections.OrderedDict'] = lambda I, a, k: b_dict(I, *a, **k)

    def defaultdict(I, a, k):
        d = I.mkdict()
        fac = a[0] if a else None

        def miss(key):
            v = I.call(fac, [], {})
            d.d[dkey(key)] = v
            d.keys[dkey(key)] = key
            return v
        if fac is not None:
            d.extra = miss
        return d
    E['collections.defaultdict'] = defaultdict

    # logging: no effect on results
    for n in ('debug', 'info', 'warning', 'error', 'exception', 'critical', 'basicConfig'):
        E['logging.' + n] = lambda I, a, k, n=n: I.ev('log', level=n)
    E['logging.getLogger'] = lambda I, a, k: ExtObj('logger')
    for n in ('debug', 'info', 'warning', 'error', 'exception', 'critical', 'setLevel', 'addHandler'):
        H[('logger', n)] = lambda I, o, a, k, n=n: I.ev('log', level=n)

    # pathlib
    def path(I, a, k):
        if not a:
            return ExtObj('path', dict(s='.'))
        s = pathjoin(I, *a)
        return ExtObj('path', dict(s=s), I.pc)
    for n in ('pathlib.Path', 'pathlib.PurePath'):
        E[n] = path

    def pwrap(f):
        return lambda I, o, a, k: ExtObj('path', dict(s=f(I, o, a, k)), I.pc)
    H[('path', 'binop')] = pwrap(lambda I, o, a, k: pathjoin(I, o.data['s'], a[1]))
    H[('path', 'joinpath')] = pwrap(lambda I, o, a, k: pathjoin(I, o.data['s'], *a))
    H[('path', 'with_suffix')] = pwrap(lambda I, o, a, k: SStr((('with_suffix', dkey(o.data['s']), dkey(a[0])),)))
    H[('path', 'resolve')] = lambda I, o, a, k: o
    H[('path', 'absolute')] = lambda I, o, a, k: o
    H[('path', 'expanduser')] = lambda I, o, a, k: o
    X[('path', 'name')] = lambda I, o: E['os.path.basename'](I, [o.data['s']], {})
    X[('path', 'parent')] = lambda I, o: ExtObj('path', dict(s=E['os.path.dirname'](I, [o.data['s']], {})))
    X[('path', 'stem')] = lambda I, o: SStr((('stem', dkey(o.data['s'])),))
    H[('path', '__str__')] = lambda I, o, a, k: o.data['s']
    H[('path', '__fspath__')] = lambda I, o, a, k: o.data['s']
    H[('path', 'mkdir')] = lambda I, o, a, k: mkdir(I, o.data['s'], k.get('exist_ok', a[2] if len(a) > 2 else False), k.get('parents', a[1] if len(a) > 1 else False))
    for n in ('exists', 'is_file', 'is_dir'):
        H[('path', n)] = lambda I, o, a, k, n=n: there(o.data['s'], n)
    for n in ('write_text', 'write_bytes', 'touch'):
        H[('path', n)] = lambda I, o, a, k: I.ev('open', path=o.data['s'], mode='w')
    H[('path', 'open')] = lambda I, o, a, k: b_open(I, o.data['s'], *(a or ['r']), **k)
    H[('path', 'unlink')] = lambda I, o, a, k: I.ev('delete', path=o.data['s'], fn='unlink')

    # files
    H[('file', 'write')] = lambda I, o, a, k: I.ev('file_write', file=o)
    H[('file', 'read')] = lambda I, o, a, k: I.opaque('file contents')
    H[('file', 'close')] = lambda I, o, a, k: None
    H[('globals', '__setitem__')] = lambda I, o, a, k: setglobal(I, o.data['module'], a[0], a[1])
    H[('globals', '__getitem__')] = lambda I, o, a, k: getglobal(I, o.data['module'], a[0])
    H[('globals', 'update')] = lambda I, o, a, k: [setglobal(I, o.data['module'], n, v) for n, v in (a[0].d.items() if a and isinstance(a[0], PyDict) else k.items())] and None
    H[('globals', 'get')] = lambda I, o, a, k: o.data['module'].env.get(a[0], a[1] if len(a) > 1 else None)


def setglobal(I, m, name, v):
    if not isinstance(name, str):
        I.note('global with unknown name')
        return None
    if not I.importing:
        I.ev('global_write', name=name, module=m.name, value=v)
    m.env[name] = v if I.pc is True else I.gite(I.pc, v, m.env.get(name, UNSET))
    return None


def getglobal(I, m, name):
    v = m.env.get(name, UNSET)
    if v is UNSET:
        return I.raise_b('KeyError', name)
    return v


def copyval(I, v, deep):
    if isinstance(v, Arr):
        return I.mkarr(v.a.copy(), v.dt)
    if isinstance(v, PyList):
        return I.mklist(lift(lambda t: tuple(copyval(I, x, True) for x in t) if deep else t, v.v), v.kind)
    if isinstance(v, PyDict):
        d = I.mkdict()
        d.keys = dict(v.keys)
        d.d = {k: copyval(I, x, True) if deep else x for k, x in v.d.items()}
        return d
    if isinstance(v, tuple):
        return (tuple(copyval(I, x, deep) for x in v) if type(v) is tuple else NamedTup.make(v.cls, [copyval(I, x, deep) for x in v])) if deep else v
    if isinstance(v, Instance):
        o = Instance(v.cls, I.pc)
        o.attrs = {k: copyval(I, x, True) if deep else x for k, x in v.attrs.items()}
        return o
    if isinstance(v, OpaqueInst):
        o = OpaqueInst(v.name, {k: copyval(I, x, True) if deep else x for k, x in v.attrs.items()}, v.cls, v.on_missing)
        return o
    return v


# ---------------------------------------------------------------------------------------------------- pandas
def df_new(I, cols, nrows, index=None):
    """cols: list of [label, list of values]"""
    return ExtObj('df', dict(cols=[[n, list(v)] for n, v in cols], n=nrows, index=index), I.pc)


def col_values(I, v, n=None):
    v = I.simp(v)
    if isinstance(v, Arr):
        if v.a.ndim == 1:
            return list(v.a)
        if v.a.ndim == 0:
            return [v.a[()]]
        return [Opaque('2-d column')] * v.a.shape[0]
    if isinstance(v, (PyList, tuple)):
        return list(I.iter_plain(v))
    if isinstance(v, ExtObj) and v.kind == 'series':
        return list(v.data['v'])
    return None


def install_pandas(self):
    E, H, X = self.ext, self.extmeth, self.extattr

    def from_dict(I, d, index=None):
        cols = []
        n = None
        for k, v in d.d.items():
            vs = col_values(I, v)
            cols.append([d.keys[k], vs, v])
            if vs is not None:
                if n is not None and len(vs) != n:
                    I.raise_b('ValueError', 'All arrays must be of the same length')
                    return UNSET
                n = len(vs)
        if n is None:
            ix = I.iter_plain(index) if index is not None else None
            if ix is None:
                I.raise_b('ValueError', 'If using all scalar values, you must pass an index')
                return UNSET
            n = len(ix)
        return df_new(I, [[k, vs if vs is not None else [v] * n] for k, vs, v in cols], n,
                      I.iter_plain(index) if index is not None else None)

    def dataframe(I, data=None, index=None, columns=None, **kw):
        data = I.simp(data)
        if isinstance(data, PyDict):
            r = from_dict(I, data, index)
            if columns is not None and isinstance(r, ExtObj):
                names = I.iter_plain(columns)
                m = {dkey(c[0]): c for c in r.data['cols']}
                r.data['cols'] = [m.get(dkey(x), [x, [NAN] * r.data['n']]) for x in names]
            return r
        if isinstance(data, (PyList, tuple)):
            items = I.iter_plain(data)
            if items and all(isinstance(x, PyDict) for x in items):
                names = []
                for x in items:
                    for k in x.d:
                        if k not in names:
                            names.append(k)
                keys = {k: x.keys[k] for x in items for k in x.d}
                return df_new(I, [[keys[k], [x.d.get(k, NAN) for x in items]] for k in names], len(items))
            data = I.asarray(data)
        if isinstance(data, Arr):
            a = data.a
            if a.ndim == 1:
                a = a.reshape(-1, 1)
            if a.ndim != 2:
                I.raise_b('ValueError', 'Must pass 2-d input')
                return UNSET
            names = I.iter_plain(columns) if columns is not None else list(range(a.shape[1]))
            if len(names) != a.shape[1]:
                I.raise_b('ValueError', 'wrong number of columns')
                return UNSET
            return df_new(I, [[n, list(a[:, j])] for j, n in enumerate(names)], a.shape[0])
        if isinstance(data, ExtObj) and data.kind in ('df',):
            return df_new(I, data.data['cols'], data.data['n'], data.data['index'])
        if isinstance(data, ExtObj) and data.kind == 'series':
            names = I.iter_plain(columns) if columns is not None else [data.data.get('name', 0)]
            return df_new(I, [[names[0], data.data['v']]], len(data.data['v']))
        if data is None:
            return df_new(I, [], 0)
        return I.opaque('DataFrame of %r' % (data,))

    def ed(n, f):
        E[n] = lambda I, a, k: f(I, *a, **k)
    ed('pandas.DataFrame', dataframe)

    def from_records(I, data, index=None, columns=None, **k):
        data = I.simp(data)
        if isinstance(data, PyDict):
            return from_dict(I, data, index)
        return dataframe(I, data, index, columns)
    ed('pandas.DataFrame.from_records', from_records)

    def from_dict2(I, data, orient='columns', columns=None, **k):
        if orient == 'index':
            rows = [(data.keys[q], col_values(I, v) or [v]) for q, v in data.d.items()]
            names = I.iter_plain(columns) if columns is not None else list(range(len(rows[0][1])))
            return df_new(I, [[n, [r[1][j] for r in rows]] for j, n in enumerate(names)], len(rows), [r[0] for r in rows])
        return from_dict(I, data)
    ed('pandas.DataFrame.from_dict', from_dict2)

    def series(I, data=None, index=None, name=None, **k):
        if isinstance(data, PyDict):
            return ExtObj('series', dict(v=list(data.d.values()), index=[data.keys[q] for q in data.d], name=name), I.pc)
        return ExtObj('series', dict(v=col_values(I, data), name=name, index=I.iter_plain(index) if index is not None else None), I.pc)
    ed('pandas.Series', series)

    def concat(I, objs, axis=0, ignore_index=False, **k):
        items = I.iter_plain(objs)
        dfs = []
        for x in items:
            if isinstance(x, ExtObj) and x.kind == 'series':
                x = df_new(I, [[x.data.get('name'), x.data['v']]], len(x.data['v']))
            if not (isinstance(x, ExtObj) and x.kind == 'df'):
                if x is None:
                    continue
                return I.opaque('concat of %r' % (x,))
            dfs.append(x)
        if axis in (1, 'columns'):
            n = max(d.data['n'] for d in dfs)
            cols = []
            for d in dfs:
                for nm, v in d.data['cols']:
                    cols.append([nm, list(v) + [NAN] * (n - len(v))])
            # rows are aligned by index label
            off = {tuple(repr(i) for i in (d.data['index'] or range(d.data['n']))) for d in dfs}
            if len(off) > 1 and len({len(o) for o in off}) == 1:
                I.ev('misaligned', cols=[c[0] for c in cols])
                return df_new(I, [[c[0], [Opaque('rows of different tables are aligned by different labels')] * n] for c in cols], n)
            if len(off) > 1:
                I.ev('misaligned', cols=[c[0] for c in cols])
            return df_new(I, cols, n, dfs[0].data['index'])
        names = []
        for d in dfs:
            for c in d.data['cols']:
                if c[0] not in names:
                    names.append(c[0])
        n = sum(d.data['n'] for d in dfs)
        cols = []
        for nm in names:
            v = []
            for d in dfs:
                m = [c[1] for c in d.data['cols'] if c[0] == nm]
                v += m[0] if m else [NAN] * d.data['n']
            cols.append([nm, v])
        idx = None
        if not ignore_index:
            idx = []
            for d in dfs:
                idx += list(d.data['index'] or range(d.data['n']))
        return df_new(I, cols, n, idx)
    ed('pandas.concat', concat)

    def m(n):
        def d(f):
            H[('df', n)] = lambda I, o, a, k: f(I, o, *a, **k)
            return f
        return d

    def clone(I, o):
        return df_new(I, o.data['cols'], o.data['n'], list(o.data['index']) if o.data['index'] is not None else None)

    def put(I, o, new, inplace):
        if inplace is True:
            I.touch(o, 'DataFrame in place')
            o.data.update(new.data)
            return None
        return new

    def transpose(I, o, *a, **k):
        names = [c[0] for c in o.data['cols']]
        idx = o.data['index'] if o.data['index'] is not None else list(range(o.data['n']))
        return df_new(I, [[idx[r], [c[1][r] for c in o.data['cols']]] for r in range(o.data['n'])], len(names), names)
    m('transpose')(transpose)
    X[('df', 'T')] = transpose

    @m('reset_index')
    def _(I, o, drop=False, inplace=False, **k):
        idx = o.data['index'] if o.data['index'] is not None else list(range(o.data['n']))
        cols = [[c[0], list(c[1])] for c in o.data['cols']]
        if drop is not True:
            cols = [[k.get('names', 'index'), list(idx)]] + cols
        return put(I, o, df_new(I, cols, o.data['n']), inplace)

    @m('set_index')
    def _(I, o, key, inplace=False, **k):
        idx = [c[1] for c in o.data['cols'] if c[0] == key][0]
        return put(I, o, df_new(I, [c for c in o.data['cols'] if c[0] != key], o.data['n'], list(idx)), inplace)

    @m('rename')
    def _(I, o, mapper=None, columns=None, inplace=False, axis=None, **k):
        mp = columns if columns is not None else mapper
        if isinstance(mp, PyDict):
            cols = [[mp.d.get(dkey(c[0]), c[0]), list(c[1])] for c in o.data['cols']]
        else:
            cols = [[I.call(mp, [c[0]], {}), list(c[1])] for c in o.data['cols']]
        return put(I, o, df_new(I, cols, o.data['n'], o.data['index']), inplace)

    @m('copy')
    def _(I, o, *a, **k):
        return clone(I, o)

    @m('assign')
    def _(I, o, **kw):
        d = clone(I, o)
        for k, v in kw.items():
            setcol(I, d, k, v)
        return d

    def setcol(I, o, key, v):
        I.touch(o, 'DataFrame column')
        vs = col_values(I, v)
        if vs is None:
            vs = [v] * o.data['n']
        if not o.data['cols']:
            o.data['n'] = len(vs)
        for c in o.data['cols']:
            if c[0] == key:
                c[1] = vs
                return
        o.data['cols'].append([key, vs])
    H[('df', '__setitem__')] = lambda I, o, a, k: setcol(I, o, a[0], a[1])

    @m('insert')
    def _(I, o, loc, column, value, *a, **k):
        vs = col_values(I, value)
        o.data['cols'].insert(I.toint(loc), [column, vs if vs is not None else [value] * o.data['n']])

    @m('drop')
    def _(I, o, labels=None, axis=0, columns=None, inplace=False, **k):
        c = columns if columns is not None else labels
        if columns is None and axis not in (1, 'columns'):
            raise Unsupported('dropping rows')
        names = [c] if isinstance(c, str) else I.iter_plain(c)
        return put(I, o, df_new(I, [x for x in o.data['cols'] if x[0] not in names], o.data['n'], o.data['index']), inplace)

    def getitem(I, o, a, k):
        key = a[0]
        if isinstance(key, (str, SStr)) or isinstance(key, int):
            hit = [c for c in o.data['cols'] if c[0] == key]
            if not hit:
                return I.raise_b('KeyError', key)
            return ExtObj('series', dict(v=list(hit[0][1]), name=key, index=o.data['index']), I.pc)
        if isinstance(key, PyList):
            names = I.iter_plain(key)
            return df_new(I, [[n, [c[1] for c in o.data['cols'] if c[0] == n][0]] for n in names], o.data['n'], o.data['index'])
        if isinstance(key, SliceVal):
            return rows(I, o, I.npindex(key))
        return I.opaque('DataFrame subscript')
    H[('df', '__getitem__')] = getitem

    def rows(I, o, sl):
        idx = o.data['index'] if o.data['index'] is not None else list(range(o.data['n']))
        ix = idx[sl]
        return df_new(I, [[c[0], list(c[1])[sl]] for c in o.data['cols']], len(ix), ix)
    self.df_rows = rows

    X[('df', 'columns')] = lambda I, o: ExtObj('columns', dict(df=o))
    H[('columns', '__iter__')] = lambda I, o, a, k: I.mklist([c[0] for c in o.data['df'].data['cols']])
    H[('columns', '__len__')] = lambda I, o, a, k: len(o.data['df'].data['cols'])
    H[('columns', '__getitem__')] = lambda I, o, a, k: [c[0] for c in o.data['df'].data['cols']][I.npindex(a[0])]
    H[('columns', 'tolist')] = H[('columns', '__iter__')]
    X[('columns', 'values')] = lambda I, o: I.mklist([c[0] for c in o.data['df'].data['cols']])

    def set_attr(I, o, a, k):
        if a[0] == 'columns':
            names = I.iter_plain(a[1])
            for c, n in zip(o.data['cols'], names):
                c[0] = n
        elif a[0] == 'index':
            o.data['index'] = I.iter_plain(a[1])
    H[('df', '__setattr__')] = set_attr
    X[('df', 'shape')] = lambda I, o: (o.data['n'], len(o.data['cols']))
    X[('df', 'index')] = lambda I, o: I.mklist(o.data['index'] if o.data['index'] is not None else list(range(o.data['n'])))
    H[('df', '__len__')] = lambda I, o, a, k: o.data['n']
    H[('df', '__iter__')] = lambda I, o, a, k: I.mklist([c[0] for c in o.data['cols']])

    def iloc(I, o):
        return ExtObj('iloc', dict(df=o))
    X[('df', 'iloc')] = iloc

    def iloc_get(I, o, a, k):
        d = o.data['df']
        key = a[0]
        if isinstance(key, tuple):
            r, c = key
            sub = d if isinstance(r, SliceVal) and r.lo is None and r.hi is None and r.st is None else None
            if isinstance(r, int) and isinstance(c, int):
                return d.data['cols'][c][1][r]
            if isinstance(r, SliceVal) and isinstance(c, SliceVal):
                x = rows(I, d, I.npindex(r))
                x.data['cols'] = x.data['cols'][I.npindex(c)]
                return x
            raise Unsupported('iloc')
        if isinstance(key, SliceVal):
            return rows(I, d, I.npindex(key))
        if isinstance(key, int):
            return ExtObj('series', dict(v=[c[1][key] for c in d.data['cols']], index=[c[0] for c in d.data['cols']]), I.pc)
        if isinstance(key, (PyList, Arr)):
            ix = I.npindex(key)
            idx = d.data['index'] if d.data['index'] is not None else list(range(d.data['n']))
            return df_new(I, [[c[0], [c[1][i] for i in ix]] for c in d.data['cols']], len(ix), [idx[i] for i in ix])
        raise Unsupported('iloc')
    H[('iloc', '__getitem__')] = iloc_get

    @m('head')
    def _(I, o, n=5):
        return rows(I, o, slice(0, I.toint(n)))

    @m('tail')
    def _(I, o, n=5):
        return rows(I, o, slice(-I.toint(n), None))

    @m('round')
    def _(I, o, *a, **k):
        return df_new(I, [[c[0], [app('round', x, *a) if isinstance(x, (Poly, DD)) and not has_obj(x) else x for x in c[1]]] for c in o.data['cols']], o.data['n'], o.data['index'])

    @m('sort_values')
    def _(I, o, *a, **k):
        return df_new(I, [[c[0], [Opaque('sorted rows')] * o.data['n']] for c in o.data['cols']], o.data['n'])
    H[('df', 'sort_index')] = H[('df', 'sort_values')]
    H[('df', 'sample')] = H[('df', 'sort_values')]

    @m('join')
    def _(I, o, other, **k):
        return concat(I, I.mklist([o, other]), axis=1)

    @m('iterrows')
    def _(I, o):
        idx = o.data['index'] if o.data['index'] is not None else list(range(o.data['n']))
        out = []
        for r in range(o.data['n']):
            out.append((idx[r], ExtObj('row', dict(vals={dkey(c[0]): c[1][r] for c in o.data['cols']}), I.pc)))
        return I.mklist(out)

    def rowget(I, o, a, k):
        v = o.data['vals'].get(dkey(a[0]), UNSET)
        if v is UNSET:
            return I.raise_b('KeyError', a[0])
        return v
    H[('row', '__getitem__')] = rowget
    X[('df', 'values')] = lambda I, o: to_np(I, o)

    def to_np(I, o, *a, **k):
        r = np.empty((o.data['n'], len(o.data['cols'])), dtype=object)
        for j, c in enumerate(o.data['cols']):
            for i, x in enumerate(c[1]):
                r[i, j] = x
        return I.mkarr(r, 'f')
    m('to_numpy')(to_np)

    @m('to_dict')
    def _(I, o, orient='dict'):
        if orient == 'list':
            return I.mkdict({c[0]: I.mklist(c[1]) for c in o.data['cols']})
        raise Unsupported('to_dict')

    def to_file(kind):
        def f(I, o, a, k):
            dst = a[0] if a else k.get('excel_writer', k.get('path_or_buf', k.get('buf')))
            I.ev('df_write', fmt=kind, df=o, snap=[[c[0], list(c[1])] for c in o.data['cols']], dst=dst, kw=k, args=a)
            if dst is not None and not (isinstance(dst, ExtObj) and dst.kind == 'xlwriter'):
                I.ev('open', path=dst, mode='w')
            if isinstance(dst, ExtObj) and dst.kind == 'xlwriter':
                sn = k.get('sheet_name', a[1] if len(a) > 1 else 'Sheet1')
                dst.data['sheets'].append((sn, o))
            return None
        return f
    for n in ('to_excel', 'to_csv', 'to_html', 'to_json', 'to_pickle', 'to_latex', 'to_parquet', 'to_string', 'to_markdown'):
        H[('df', n)] = to_file(n)

    def xlwriter(I, a, k):
        p = a[0] if a else k.get('path')
        I.ev('open', path=p, mode='w' if k.get('mode', 'w') == 'w' else k.get('mode'))
        return ExtObj('xlwriter', dict(path=p, sheets=[]), I.pc)
    E['pandas.ExcelWriter'] = xlwriter
    H[('xlwriter', '__enter__')] = lambda I, o, a, k: o
    H[('xlwriter', 'save')] = lambda I, o, a, k: None
    H[('xlwriter', 'close')] = lambda I, o, a, k: None

    # series
    def sm(n):
        def d(f):
            H[('series', n)] = lambda I, o, a, k: f(I, o, *a, **k)
            return f
        return d

    def snew(I, v, o):
        return ExtObj('series', dict(v=v, name=o.data.get('name'), index=o.data.get('index')), I.pc)

    @sm('astype')
    def _(I, o, t=None, **k):
        n = t.name if isinstance(t, (Builtin, ExtVal)) else t
        if n in ('str',):
            return ExtObj('unknown', dict(src='series of strings'))
        return snew(I, o.data['v'], o)
    H[('series', '__len__')] = lambda I, o, a, k: len(o.data['v'])
    H[('series', '__iter__')] = lambda I, o, a, k: I.mklist(o.data['v'])

    def sget(I, o, a, k):
        key = a[0]
        if isinstance(key, int):
            return o.data['v'][key]
        if isinstance(key, SliceVal):
            return snew(I, o.data['v'][I.npindex(key)], o)
        idx = o.data.get('index')
        if idx is not None and key in idx:
            return o.data['v'][idx.index(key)]
        return I.raise_b('KeyError', key)
    H[('series', '__getitem__')] = sget

    def sbin(I, o, a, k):
        op, b = a
        x = I.asarray(I.mklist(o.data['v']))
        y = I.asarray(I.mklist(b.data['v'])) if isinstance(b, ExtObj) and b.kind == 'series' else b
        r = I.binop(op, x, y)
        return snew(I, list(r.a), o) if isinstance(r, Arr) else r
    H[('series', 'binop')] = sbin
    for n in ('to_numpy', 'to_list', 'tolist'):
        sm(n)(lambda I, o, n=n, **k: I.asarray(I.mklist(o.data['v'])) if n == 'to_numpy' else I.mklist(o.data['v']))
    X[('series', 'values')] = lambda I, o: I.asarray(I.mklist(o.data['v']))
    X[('series', 'str')] = lambda I, o: ExtObj('unknown', dict(src='series.str'))
    for n in ('sum', 'mean', 'max', 'min'):
        sm(n)(lambda I, o, n=n, **k: I.call_ext('numpy.' + n, [I.asarray(I.mklist(o.data['v']))], {}))

    @sm('map')
    def _(I, o, f, **k):
        return snew(I, [I.call(f, [x], {}) for x in o.data['v']], o)
    H[('series', 'apply')] = H[('series', 'map')]

    @sm('to_frame')
    def _(I, o, name=None):
        return df_new(I, [[name if name is not None else o.data.get('name', 0), o.data['v']]], len(o.data['v']), o.data.get('index'))

    @sm('reset_index')
    def _(I, o, drop=False, **k):
        if drop is True:
            return ExtObj('series', dict(v=o.data['v'], name=o.data.get('name'), index=None), I.pc)
        idx = o.data.get('index') or list(range(len(o.data['v'])))
        return df_new(I, [['index', idx], [o.data.get('name') or 0, o.data['v']]], len(idx))


def install(self):
    Interp.binop = binop
    Interp.compare = compare
    self.extmods = {}
    self.cli_value = lambda names, nm, kw: strsym('cli ' + nm)

    def map1(fn, arr, dt=None):
        return elementwise(self, fn, (arr,), dt or arr.dt)
    self.map1 = map1
    install_methods(self)
    for n, f in dict(len=length, range=b_range, list=takes(b_list), tuple=takes(b_tuple), set=takes(b_set), frozenset=takes(b_set),
                     dict=takes(b_dict), zip=iterator(b_zip),
                     enumerate=iterator(b_enumerate), max=takes(b_minmax('max')), min=takes(b_minmax('min')), sum=takes(b_sum), abs=b_abs, int=b_int, float=b_float,
                     str=b_str, repr=b_repr, round=b_round, isinstance=b_isinstance, issubclass=b_issubclass, hasattr=b_hasattr,
                     getattr=b_getattr, setattr=b_setattr, type=b_type, print=b_print, open=b_open, iter=b_iter, next=b_next,
                     sorted=takes(b_sorted), all=takes(b_quant(True)), any=takes(b_quant(False)), map=iterator(b_map),
                     filter=iterator(b_filter), reversed=iterator(b_reversed),
                     __import__=b_import, globals=b_globals, vars=b_vars, divmod=b_divmod, callable=b_callable).items():
        B(self, n, f)
    B(self, 'bool', lambda I, v=False: I.truth(v))
    B(self, 'pow', lambda I, a, b: I.binop('Pow', a, b))
    B(self, 'id', lambda I, v: I.opaque('id()'))
    B(self, 'hash', lambda I, v: I.opaque('hash()'))
    B(self, 'input', lambda I, *a: (I.ev('impure', fn='input'), I.opaque('input()'))[1])
    B(self, 'slice', lambda I, *a: SliceVal(*((None, a[0], None) if len(a) == 1 else (a + (None,))[:3])))
    B(self, 'format', lambda I, v, s='': I.to_str(v, s))
    B(self, 'ord', lambda I, c: ord(c))
    B(self, 'chr', lambda I, c: chr(c))
    B(self, 'locals', lambda I: I.mkdict(I.frames[-1].env))
    for n in ('exec', 'eval', 'compile'):
        B(self, n, lambda I, *a, n=n, **k: (I.ev('dynamic_code', fn=n), I.opaque(n))[1])
    B(self, 'object', lambda I: ExtObj('object'))
    for n in BUILTIN_EXC:
        if '.' not in n:
            self.builtins[n] = Builtin(n, None)
    for n in ('property', 'staticmethod', 'classmethod'):
        self.builtins[n] = Builtin(n, lambda I, a, k, n=n: Prop(*a) if n == 'property' else StaticM(a[0]) if n == 'staticmethod' else ClassM(a[0]))
    self.builtins['NotImplemented'] = ExtVal('NotImplemented')
    self.builtins['Ellipsis'] = Ellipsis
    self.builtins['__debug__'] = True
    self.ext['NoneType'] = lambda I, a, k: None
    self.extattr[('builtin', 'dict', 'fromkeys')] = lambda I, a, k: I.mkdict({x: (a[1] if len(a) > 1 else None) for x in b_tuple(I, a[0])})
    install_std(self)
    install_pandas(self)
