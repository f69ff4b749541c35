"""Models of numpy, math, scipy and numba on arrays of value numbers.

Shapes, broadcasting, views and index semantics are those of numpy itself (object arrays); element operations are the
algebra of terms.py.  A function without a model makes its result unknown (never silently right)."""
import builtins

import numpy as np

from .terms import *
from .values import *
from .interp import Unsupported, GatedIndex
from .libmodel import (SOPS, elementwise, res_dt, sdt, dt_of, scal_cmp, extremum, b_int, b_float, b_sum, numlist)

FLOATS = ('float', 'float64', 'float32', 'float_', 'longdouble', 'double', 'f8', 'd', 'f', 'float16', 'half', 'single')
INTS = ('int', 'int64', 'int32', 'int_', 'intp', 'uint8', 'int8', 'int16', 'i8', 'i', 'uint64', 'uint32', 'uint', 'intc')
BOOLS = ('bool', 'bool_', 'boolean', '?', 'b1')


def dtype_of(I, d, default='f'):
    if d is None or d is UNSET:
        return default
    if isinstance(d, Builtin):
        n = d.name
    elif isinstance(d, ExtVal):
        n = d.name.rsplit('.', 1)[-1]
    elif isinstance(d, str):
        n = d
    elif isinstance(d, ExtObj) and d.kind == 'dtype':
        return d.data['dt']
    else:
        raise Unsupported('dtype %r' % (d,))
    if n in FLOATS:
        return 'f'
    if n in INTS:
        return 'i'
    if n in BOOLS:
        return 'b'
    if n in ('object', 'object_', 'O'):
        return 'O'
    if n in ('str', 'str_', 'U', 'unicode_') or n[:2] in ('<U', 'U1', 'U2', 'U3'):
        return 'U'
    raise Unsupported('dtype %s' % n)


ZEROS = {'f': ZERO, 'i': 0, 'b': False, 'O': 0, 'U': ''}
ONES = {'f': ONE, 'i': 1, 'b': True, 'O': 1, 'U': '1'}


def obj(shape, fill):
    x = np.empty(shape, dtype=object)
    for i in np.ndindex(*x.shape):
        x[i] = fill
    return x


def nd(x):
    if isinstance(x, np.ndarray):
        return x
    y = np.empty((), dtype=object)
    y[()] = x
    return y


class Lift(Exception):
    def __init__(self, v):
        self.v = v


def nested(I, v):
    """object ndarray and dtypes of a nested sequence"""
    v = I.simp(v)
    if isinstance(v, DD) and has_obj(v):
        raise Lift(v)
    if isinstance(v, Arr):
        return v.a, {v.dt}
    if isinstance(v, PyList) and isinstance(v.v, DD):
        raise Lift(v.v)
    if isinstance(v, (PyList, tuple, range)) or (isinstance(v, ExtObj) and v.kind in ('series', 'column')):
        if isinstance(v, PyList) and v.kind == 'set':
            raise Unsupported('array of a set')
        it = I.iter_plain(v)
        if it is None:
            raise Unsupported('array of an unknown sequence')
        if not it:
            return np.empty((0,), dtype=object), {'f'}
        parts = [nested(I, x) for x in it]
        sh = [p[0].shape for p in parts]
        big = [s for s in sh if s != ()]
        if any(s != sh[0] for s in sh):
            opq = [p[0] for p in parts if p[0].shape == () and isinstance(p[0][()], Opaque)]
            if opq and all(s == big[0] for s in big):
                parts = [(obj(big[0], p[0][()]), p[1]) if p[0].shape == () and isinstance(p[0][()], Opaque) else p for p in parts]
            else:
                raise ValueError('setting an array element with a sequence. The requested array has an inhomogeneous shape')
        r = np.empty((len(parts),) + parts[0][0].shape, dtype=object)
        dts = set()
        for i, (p, d) in enumerate(parts):
            r[i] = p if p.shape != () else p[()]
            dts |= d
        return r, dts
    if isinstance(v, ExtObj):
        h = I.extmeth.get((v.kind, '__array__'))
        if h:
            a = h(I, v, [], {})
            return a.a, {a.dt}
        if v.kind != 'unknown':
            h = I.extmeth.get((v.kind, 'to_numpy'))
            if h:
                a = h(I, v, [], {})
                return a.a, {a.dt}
        return nd(Opaque('external value')), {'f'}
    if isinstance(v, np.ndarray):
        return v, {'f'}
    if v is None:
        return nd(None), {'O'}
    return nd(v), {sdt(v)}


def to_nd(I, v):
    a, d = nested(I, v)
    dt = I.join_dt(d)
    return a, dt


def asarray(I, v, dt=None, copy=False):
    v = I.simp(v)
    if v is UNSET:
        return UNSET
    if isinstance(v, Opaque):
        return v
    if isinstance(v, Arr):
        if dt is None or dt == v.dt:
            return I.mkarr(v.a.copy(), v.dt) if copy else v
        return I.mkarr(conv_nd(I, v.a, dt), dt)
    try:
        a, d = to_nd(I, v)
    except Lift as l:
        if l.v is not v:
            if isinstance(v, PyList) and l.v is v.v:
                return I.lift_cases(v.v, lambda t: asarray(I, t, dt, copy))
            # a gated object inside the sequence: split on it
            return lift_inner(I, v, lambda w: asarray(I, w, dt, copy))
        return I.lift_cases(v, lambda x: asarray(I, x, dt, copy))
    except ValueError as e:
        return I.raise_b('ValueError', str(e))
    if dt is None:
        dt = d
    a = conv_nd(I, a, dt)
    return I.mkarr(a, dt)


def lift_inner(I, v, fn):
    """case split on the first gated object inside a nested sequence"""
    def find(x):
        x = I.simp(x)
        if isinstance(x, DD) and has_obj(x):
            return x
        if isinstance(x, PyList):
            if isinstance(x.v, DD):
                return x.v
            for y in x.v:
                r = find(y)
                if r is not None:
                    return r
        if isinstance(x, tuple):
            for y in x:
                r = find(y)
                if r is not None:
                    return r
        return None
    g = find(v)
    if g is None:
        raise Unsupported('gated sequence')
    cs = cases(g)
    pc0 = I.pc
    res = UNSET
    out = False
    first = True
    for gd, l in cs:
        I.pc = g_and(pc0, gd)
        if I.pc is False:
            continue
        r = fn(v)
        res = r if first else I.gite(gd, r, res)
        first = False
        out = g_or(out, I.pc)
    I.pc = out
    return I.simp(res)


def conv_nd(I, a, dt):
    r = np.empty(a.shape, dtype=object)
    for i in np.ndindex(*a.shape):
        r[i] = I.conv_elem(a[i], dt)
    return r


def scalar_or(I, a, dt):
    if isinstance(a, np.ndarray):
        if a.ndim == 0:
            return a[()]
        return I.mkarr(a, dt)
    return a


def axes(axis, ndim):
    if axis is None:
        return tuple(range(ndim))
    if isinstance(axis, tuple):
        return tuple(x % ndim for x in axis)
    if not -ndim <= axis < ndim:
        raise IndexError('axis')
    return (axis % ndim,)


def reduce_(fn, a, axis, keep, empty):
    """fold over axes; fn takes the list of elements"""
    ax = axes(axis, a.ndim) if a.ndim else ()
    rest = [i for i in range(a.ndim) if i not in ax]
    b = a.transpose(rest + list(ax))
    sh = tuple(a.shape[i] for i in rest)
    r = np.empty(sh, dtype=object)
    for i in np.ndindex(*sh):
        x = b[i]
        r[i] = fn(list(x.ravel()) if isinstance(x, np.ndarray) else [x])
    if keep:
        r = r.reshape([1 if i in ax else a.shape[i] for i in range(a.ndim)])
    return r


def fold(op, start):
    def f(xs):
        if not xs:
            return start
        acc = xs[0]
        for x in xs[1:]:
            acc = op(acc, x)
        return acc
    return f


def tofloat(x):
    if isinstance(x, bool):
        return ONE if x else ZERO
    if isinstance(x, int):
        return const(x)
    if isinstance(x, DD):
        return lift(lambda l: const(int(l)) if isinstance(l, (bool, int)) else l, x)
    return x


def boolnum(x):
    """numeric value of a boolean element"""
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, DD):
        return lift(lambda l: int(l) if isinstance(l, bool) else l, x)
    return x


add = SOPS['Add']
mul = SOPS['Mult']


def ssum(xs):
    xs = [boolnum(x) for x in xs]
    return fold(add, 0)(xs) if xs else 0


def sqsum(xs):
    return ssum([mul(x, x) for x in xs])


def ax_arg(I, axis):
    if axis is None or axis is UNSET:
        return None
    if isinstance(axis, tuple):
        return tuple(I.toint(x) for x in axis)
    if isinstance(axis, PyList):
        return tuple(I.toint(x) for x in I.iter_plain(axis))
    return I.toint(axis)


def ints(I, s):
    s = I.simp(s)
    if isinstance(s, (tuple, PyList, Arr, range)):
        return tuple(I.toint(x) for x in I.iter_plain(s))
    return (I.toint(s),)


def np_sum(I, v, axis=None, dtype=None, out=None, keepdims=False, initial=None, where=None):
    if where is not None:
        raise Unsupported('where')
    a, d = to_nd(I, v)
    r = reduce_(ssum, a, ax_arg(I, axis), keepdims, 0)
    dt = 'f' if d == 'f' else 'O' if d == 'O' else 'i'
    if d == 'f':
        r = np.frompyfunc(tofloat, 1, 1)(r) if r.ndim else nd(tofloat(r[()]))
    if initial is not None:
        r = nd(np.frompyfunc(lambda x: add(x, initial), 1, 1)(r))
    return ret(I, r, dt, out)


def ret(I, r, dt, out=None):
    if out is not None and out is not UNSET:
        o = out[0] if isinstance(out, tuple) else out
        I.store_arr(o, Ellipsis, I.mkarr(r, dt) if isinstance(r, np.ndarray) and r.ndim else (r[()] if isinstance(r, np.ndarray) else r))
        return o
    return scalar_or(I, r, dt)


def np_prod(I, v, axis=None, dtype=None, out=None, keepdims=False):
    a, d = to_nd(I, v)
    return ret(I, reduce_(fold(mul, 1), a, ax_arg(I, axis), keepdims, 1), d if d != 'b' else 'i', out)


def np_mean(I, v, axis=None, dtype=None, out=None, keepdims=False, where=None):
    a, d = to_nd(I, v)

    def f(xs):
        if not xs:
            return NAN
        return SOPS['Div'](ssum(xs), len(xs))
    return ret(I, reduce_(f, a, ax_arg(I, axis), keepdims, NAN), 'f', out)


def np_average(I, v, axis=None, weights=None, returned=False, keepdims=False):
    if weights is None:
        return np_mean(I, v, axis, keepdims=keepdims)
    a, d = to_nd(I, v)
    w, _ = to_nd(I, weights)
    if axis is not None and w.shape != a.shape:
        if w.ndim != 1:
            raise Unsupported('weights')
        k = ax_arg(I, axis) % a.ndim
        w = w.reshape([-1 if i == k else 1 for i in range(a.ndim)])
    if axis is None and w.shape != a.shape:
        return I.raise_b('TypeError', 'Axis must be specified when shapes of a and weights differ.')
    w = np.broadcast_to(w, a.shape)
    p = np.frompyfunc(mul, 2, 1)(a, w)
    n = reduce_(ssum, p, ax_arg(I, axis), keepdims, 0)
    q = reduce_(ssum, w, ax_arg(I, axis), keepdims, 0)
    r = nd(np.frompyfunc(SOPS['Div'], 2, 1)(n, q))
    if returned:
        return (scalar_or(I, r, 'f'), scalar_or(I, q, 'f'))
    return scalar_or(I, r, 'f')


def np_ext(name):
    def f(I, v, axis=None, out=None, keepdims=False, initial=None, where=None):
        a, d = to_nd(I, v)
        if a.size == 0:
            return I.raise_b('ValueError', 'zero-size array to reduction operation has no identity')
        return ret(I, reduce_(lambda xs: extremum(name, [I.simp(x) for x in xs]), a, ax_arg(I, axis), keepdims, 0), d, out)
    return f


def np_quant(isall):
    def f(I, v, axis=None, out=None, keepdims=False, where=None):
        a, d = to_nd(I, v)

        def g(xs):
            r = isall
            for x in xs:
                t = I.truth(x)
                r = g_and(r, t) if isall else g_or(r, t)
            return r
        return ret(I, reduce_(g, a, ax_arg(I, axis), keepdims, isall), 'b', out)
    return f


def np_norm(I, x, ord=None, axis=None, keepdims=False):
    a, d = to_nd(I, x)
    if ord is not None:
        o = I.simp(ord)
        if isinstance(o, str):
            if o != 'fro':
                raise Unsupported('norm order')
        elif isinstance(o, (int, Poly)):
            if isinstance(o, Poly) and is_inf(o) and (axis is not None and not isinstance(axis, tuple) or a.ndim == 1):
                w = 'max' if sign_of(o) == '+' else 'min'
                r = reduce_(lambda xs: extremum(w, [g_abs(tofloat(x)) for x in xs]), a, ax_arg(I, axis), keepdims, 0)
                return scalar_or(I, r, 'f')
            o = I.toint(o)
            if o == 1 and (axis is not None or a.ndim == 1):
                r = reduce_(lambda xs: ssum([g_abs(tofloat(x)) for x in xs]), a, ax_arg(I, axis), keepdims, 0)
                return scalar_or(I, r, 'f')
            if o != 2 or (axis is None and a.ndim != 1):
                raise Unsupported('norm order')
        else:
            raise Unsupported('norm order')
    r = reduce_(lambda xs: g_sqrt(tofloat(sqsum(xs))), a, ax_arg(I, axis), keepdims, 0)
    return scalar_or(I, r, 'f')


def dot_nd(a, b):
    """numpy.dot on object arrays"""
    if a.ndim == 0 or b.ndim == 0:
        return nd(np.frompyfunc(mul, 2, 1)(a, b))
    if b.ndim == 1:
        if a.shape[-1] != b.shape[0]:
            raise ValueError('shapes %s and %s not aligned' % (a.shape, b.shape))
        r = np.empty(a.shape[:-1], dtype=object)
        for i in np.ndindex(*r.shape):
            r[i] = ssum([mul(x, y) for x, y in zip(a[i], b)])
        return r
    if a.shape[-1] != b.shape[-2]:
        raise ValueError('shapes %s and %s not aligned' % (a.shape, b.shape))
    r = np.empty(a.shape[:-1] + b.shape[:-2] + b.shape[-1:], dtype=object)
    for i in np.ndindex(*a.shape[:-1]):
        for j in np.ndindex(*b.shape[:-2]):
            for m in range(b.shape[-1]):
                r[i + j + (m,)] = ssum([mul(x, y) for x, y in zip(a[i], b[j][:, m])])
    return r


def matmul_nd(a, b):
    if a.ndim == 0 or b.ndim == 0:
        raise ValueError('matmul: Input operand does not have enough dimensions')
    if a.ndim <= 2 and b.ndim <= 2:
        return dot_nd(a, b)
    a1, b1 = a, b
    if a.ndim == 1:
        a1 = a[None, :]
    if b.ndim == 1:
        b1 = b[:, None]
    sh = np.broadcast_shapes(a1.shape[:-2], b1.shape[:-2])
    x = np.broadcast_to(a1, sh + a1.shape[-2:])
    y = np.broadcast_to(b1, sh + b1.shape[-2:])
    r = np.empty(sh + (a1.shape[-2], b1.shape[-1]), dtype=object)
    for i in np.ndindex(*sh):
        r[i] = dot_nd(x[i], y[i])
    if a.ndim == 1:
        r = r[..., 0, :]
    if b.ndim == 1:
        r = r[..., 0]
    return r


def dot(I, a, b, matmul=False, out=None):
    a, b = I.simp(a), I.simp(b)
    if a is UNSET or b is UNSET:
        return UNSET
    for x in (a, b):
        if isinstance(x, Opaque):
            return x
    for x, o in ((a, 0), (b, 1)):
        if isinstance(x, DD) and has_obj(x):
            return I.lift_cases(x, lambda l, o=o: dot(I, l if o == 0 else a, l if o == 1 else b, matmul, out))
    if a is None or b is None:
        return I.raise_b('TypeError', 'unsupported operand')
    x, dx = to_nd(I, a)
    y, dy = to_nd(I, b)
    try:
        r = (matmul_nd if matmul else dot_nd)(x, y)
    except ValueError as e:
        return I.raise_b('ValueError', str(e))
    dt = res_dt('Mult', dx, dy)
    if dt == 'f':
        r = nd(np.frompyfunc(tofloat, 1, 1)(r))
    return ret(I, r, dt, out)


def np_cross(I, a, b, axisa=-1, axisb=-1, axisc=-1, axis=None):
    x, dx = to_nd(I, a)
    y, dy = to_nd(I, b)
    if axis is not None:
        axisa = axisb = axisc = I.toint(axis)
    x = np.moveaxis(x, I.toint(axisa), -1)
    y = np.moveaxis(y, I.toint(axisb), -1)
    if x.shape[-1] != 3 or y.shape[-1] != 3:
        if x.shape[-1] not in (2, 3) or y.shape[-1] not in (2, 3):
            return I.raise_b('ValueError', 'incompatible dimensions for cross product')
        raise Unsupported('cross product of 2-vectors')
    try:
        sh = np.broadcast_shapes(x.shape, y.shape)
    except ValueError as e:
        return I.raise_b('ValueError', str(e))
    x, y = np.broadcast_to(x, sh), np.broadcast_to(y, sh)
    r = np.empty(sh, dtype=object)
    sub = SOPS['Sub']
    for i in np.ndindex(*sh[:-1]):
        p, q = x[i], y[i]
        r[i + (0,)] = sub(mul(p[1], q[2]), mul(p[2], q[1]))
        r[i + (1,)] = sub(mul(p[2], q[0]), mul(p[0], q[2]))
        r[i + (2,)] = sub(mul(p[0], q[1]), mul(p[1], q[0]))
    if len(sh) > 1:
        r = np.moveaxis(r, -1, I.toint(axisc))
    return I.mkarr(r, res_dt('Mult', dx, dy))


def np_einsum(I, spec, *ops, **kw):
    if not isinstance(spec, str):
        raise Unsupported('einsum')
    spec = spec.replace(' ', '')
    ins, arrow, outs = spec.partition('->')
    ins = ins.split(',')
    arrs = [to_nd(I, o) for o in ops]
    if len(ins) != len(arrs):
        raise Unsupported('einsum')
    ell = 0
    for s, (a, _) in zip(ins, arrs):
        if '...' in s:
            ell = max(ell, a.ndim - len(s.replace('...', '')))
    names = 'ABCDEFGH'[:ell]
    exp = []
    for s, (a, _) in zip(ins, arrs):
        if '...' in s:
            k = a.ndim - len(s.replace('...', ''))
            s = s.replace('...', names[ell - k:])
        exp.append(s)
    if arrow:
        outs = outs.replace('...', names)
    else:
        allc = ''.join(exp)
        outs = names + ''.join(sorted(c for c in set(allc) if allc.count(c) == 1 and c not in names))
    dims = {}
    for s, (a, _) in zip(exp, arrs):
        if len(s) != a.ndim:
            return I.raise_b('ValueError', 'einsum operand dimensions')
        for c, n in zip(s, a.shape):
            if dims.setdefault(c, n) != n:
                if dims[c] == 1 or n == 1:
                    raise Unsupported('einsum broadcast')
                return I.raise_b('ValueError', 'einsum dimension mismatch')
    summed = [c for c in dims if c not in outs]
    r = np.empty(tuple(dims[c] for c in outs), dtype=object)
    for i in np.ndindex(*r.shape):
        env = dict(zip(outs, i))
        terms = []
        for j in np.ndindex(*[dims[c] for c in summed]):
            env.update(zip(summed, j))
            t = None
            for s, (a, _) in zip(exp, arrs):
                x = a[tuple(env[c] for c in s)]
                t = x if t is None else mul(t, x)
            terms.append(t)
        r[i] = ssum(terms)
    dt = 'i'
    for _, d in arrs:
        dt = res_dt('Mult', dt, d)
    if dt == 'f':
        r = nd(np.frompyfunc(tofloat, 1, 1)(r))
    return scalar_or(I, r, dt)


def np_solve(I, A, b, *a, **k):
    x, _ = to_nd(I, A)
    y, _ = to_nd(I, b)
    if x.ndim != 2 or x.shape[0] != x.shape[1]:
        if x.ndim > 2:
            raise Unsupported('stacked systems')
        return I.raise_b('numpy.linalg.LinAlgError', 'Last 2 dimensions of the array must be square')
    n = x.shape[0]
    if y.shape[0] != n:
        return I.raise_b('ValueError', 'solve: mismatch in its core dimension')
    return I.mkarr(solve_nd(x, y), 'f')


def solve_nd(x, y):
    n = x.shape[0]
    T = tuple(tuple(tofloat(v) for v in row) for row in x)
    for row in T:
        for v in row:
            if isinstance(v, Opaque):
                return obj(y.shape, v)
    r = np.empty(y.shape, dtype=object)
    for j in np.ndindex(*y.shape[1:]):
        col = tuple(tofloat(y[(i,) + j]) for i in range(n))
        op = [v for v in col if isinstance(v, Opaque)]
        for i in range(n):
            if op:
                r[(i,) + j] = op[0]
            elif n == 1:
                r[(i,) + j] = g_div(col[0], T[0][0])
            else:
                r[(i,) + j] = app('solve', i, T, col)
    return r


def np_inv(I, A):
    x, _ = to_nd(I, A)
    if x.ndim != 2 or x.shape[0] != x.shape[1]:
        raise Unsupported('inv')
    n = x.shape[0]
    e = obj((n, n), ZERO)
    for i in range(n):
        e[i, i] = ONE
    return I.mkarr(solve_nd(x, e), 'f')


# ---- element functions ----------------------------------------------------------------------------------------------
def g_tan(x):
    return lift(lambda a: a if isinstance(a, Opaque) or a is NAN or a is BOT else g_div(g_sin(a), g_cos(a)), tofloat(x))


def app1(name):
    def f(x):
        x = tofloat(x)

        def leaf(a):
            if isinstance(a, Opaque) or a is NAN or a is BOT:
                return a
            return apoly(mk_atom('app', name, (P(a),)))
        return lift(leaf, x)
    return f


def g_floor(x):
    def leaf(a):
        if isinstance(a, Opaque) or a is NAN or a is BOT:
            return a
        if isinstance(a, int):
            return const(a)
        c = a.const()
        if c is not None:
            return const(Q(c) // 1)
        return apoly(mk_atom('app', 'floor', (a,)))
    return lift(leaf, x)


def g_ceil(x):
    def leaf(a):
        if isinstance(a, Opaque) or a is NAN or a is BOT:
            return a
        if isinstance(a, int):
            return const(a)
        c = a.const()
        if c is not None:
            return const(-(-Q(c) // 1))
        return apoly(mk_atom('app', 'ceil', (a,)))
    return lift(leaf, x)


def g_sign(x):
    x = tofloat(x)

    def leaf(a):
        if isinstance(a, Opaque) or a is NAN or a is BOT:
            return a
        return sgn3(a, const(-1), ZERO, ONE)
    r = lift(leaf, x)
    return r


def sq(x):
    return mul(x, x)


def g_tanh(x):
    return app1('tanh')(x)


def fl(f):
    return lambda x: f(tofloat(x))


def isnan(x):
    return lift(lambda a: True if a is NAN else (a if isinstance(a, Opaque) or a is BOT else False), x)


def is_inf(a):
    return isinstance(a, Poly) and len(a.terms) > 0 and sign_of(g_sub(g_abs(a), const(Q(10) ** 200))) == '+' and INF.free <= a.free


def isfinite(x):
    return lift(lambda a: False if a is NAN or is_inf(a) else (a if isinstance(a, Opaque) or a is BOT else True), x)


DEG = g_div(PIP, const(180))
RAD = g_div(const(180), PIP)

UN = {'sin': (fl(g_sin), 'f'), 'cos': (fl(g_cos), 'f'), 'tan': (g_tan, 'f'),
      'arcsin': (fl(g_asin), 'f'), 'arccos': (fl(g_acos), 'f'), 'arctan': (fl(g_atan), 'f'),
      'asin': (fl(g_asin), 'f'), 'acos': (fl(g_acos), 'f'), 'atan': (fl(g_atan), 'f'),
      'sinh': (app1('sinh'), 'f'), 'cosh': (app1('cosh'), 'f'), 'tanh': (g_tanh, 'f'),
      'sqrt': (fl(g_sqrt), 'f'), 'cbrt': (app1('cbrt'), 'f'), 'square': (sq, None), 'exp': (fl(g_exp), 'f'), 'log': (fl(g_log), 'f'),
      'log10': (lambda x: g_div(g_log(tofloat(x)), g_log(const(10))), 'f'),
      'log2': (lambda x: g_div(g_log(tofloat(x)), g_log(const(2))), 'f'),
      'log1p': (lambda x: g_log(add(tofloat(x), ONE)), 'f'), 'expm1': (lambda x: g_sub(g_exp(tofloat(x)), ONE), 'f'),
      'absolute': (lambda x: abs(x) if isinstance(x, int) else g_abs(x), None),
      'abs': (lambda x: abs(x) if isinstance(x, int) else g_abs(x), None), 'fabs': (fl(g_abs), 'f'),
      'deg2rad': (lambda x: g_mul(tofloat(x), DEG), 'f'), 'radians': (lambda x: g_mul(tofloat(x), DEG), 'f'),
      'rad2deg': (lambda x: g_mul(tofloat(x), RAD), 'f'), 'degrees': (lambda x: g_mul(tofloat(x), RAD), 'f'),
      'negative': (lambda x: -x if isinstance(x, int) else g_neg(x), None), 'positive': (lambda x: x, None),
      'reciprocal': (lambda x: SOPS['Div'](ONE, x), 'f'), 'sign': (g_sign, None),
      'floor': (g_floor, 'f'), 'ceil': (g_ceil, 'f'), 'isnan': (isnan, 'b'), 'isfinite': (isfinite, 'b'),
      'isinf': (lambda x: lift(lambda a: a if isinstance(a, Opaque) or a is BOT else is_inf(a), x), 'b'),
      'conj': (lambda x: x, None), 'conjugate': (lambda x: x, None), 'real': (lambda x: x, None)}


def xmax(name):
    return lambda a, b: extremum(name, [a, b])


def g_hypot(a, b):
    return g_sqrt(tofloat(add(sq(tofloat(a)), sq(tofloat(b)))))


BIN = {'add': SOPS['Add'], 'subtract': SOPS['Sub'], 'multiply': SOPS['Mult'], 'divide': SOPS['Div'], 'true_divide': SOPS['Div'],
       'power': SOPS['Pow'], 'float_power': SOPS['Pow'], 'mod': SOPS['Mod'], 'remainder': SOPS['Mod'], 'fmod': SOPS['Mod'],
       'floor_divide': SOPS['FloorDiv'],
       'arctan2': lambda a, b: g_atan2(tofloat(a), tofloat(b)), 'atan2': lambda a, b: g_atan2(tofloat(a), tofloat(b)),
       'hypot': g_hypot, 'maximum': xmax('max'), 'minimum': xmax('min'), 'fmax': xmax('max'), 'fmin': xmax('min')}
BDT = {'divide': 'Div', 'true_divide': 'Div', 'arctan2': 'Div', 'atan2': 'Div', 'hypot': 'Div'}
CMP = {'equal': 'Eq', 'not_equal': 'NotEq', 'less': 'Lt', 'less_equal': 'LtE', 'greater': 'Gt', 'greater_equal': 'GtE'}


def close(a, b, rtol, atol):
    if same(a, b):
        return True
    if a is NAN or b is NAN:
        return False
    d = g_abs(g_sub(tofloat(a), tofloat(b)))
    lim = add(atol, mul(rtol, g_abs(tofloat(b))))
    return scal_cmp('LtE', d, lim)


# ---- interpolation --------------------------------------------------------------------------------------------------
def basis(name, x, xp, k):
    """value at x of the interpolant through unit data at node k (linear in the data)"""
    x = tofloat(x)
    for j, p in enumerate(xp):
        if same(x, tofloat(p)):
            return ONE if j == k else ZERO
    return app(name, x, tuple(tofloat(p) for p in xp), k)


def hat_exact(x, xp, k):
    """constant nodes and station: the exact weight"""
    cs = [tofloat(p) for p in xp]
    if not all(isinstance(p, Poly) and p.const() is not None for p in cs):
        return None
    x = tofloat(x)
    if not isinstance(x, Poly) or x.const() is None:
        return None
    return const(_hatw(Q(x.const()), [Q(p.const()) for p in cs], k))


def _hatw(x, g, k):
    n = len(g)
    if x <= g[0]:
        return Q(1 if k == 0 else 0) if isinstance(x, Q) else (1 if k == 0 else 0)
    if x >= g[-1]:
        return Q(1 if k == n - 1 else 0) if isinstance(x, Q) else (1 if k == n - 1 else 0)
    for j in range(n - 1):
        if g[j] <= x <= g[j + 1]:
            t = (x - g[j]) / (g[j + 1] - g[j])
            return 1 - t if k == j else t if k == j + 1 else (Q(0) if isinstance(x, Q) else 0)
    return Q(0)


def np_interp(I, x, xp, fp, left=None, right=None, period=None):
    if left is not None or right is not None or period is not None:
        raise Unsupported('interp with left/right/period')
    X, _ = to_nd(I, x)
    p, _ = to_nd(I, xp)
    f, _ = to_nd(I, fp)
    if p.ndim != 1 or f.ndim != 1 or p.shape != f.shape:
        return I.raise_b('ValueError', 'fp and xp are not of the same length.')
    return combine(I, 'hat', X, p, f)


def combine(I, name, X, p, f):
    r = np.empty(X.shape, dtype=object)
    op = next((v for v in list(p) + list(f) + list(X.ravel()) if isinstance(v, Opaque)), None)
    for i in np.ndindex(*X.shape):
        if op is not None:
            r[i] = op
            continue
        acc = ZERO
        for k in range(len(p)):
            w = hat_exact(X[i], p, k) if name == 'hat' else None
            if w is None:
                w = basis(name, X[i], p, k)
            acc = g_add(acc, g_mul(w, tofloat(f[k])))
        r[i] = acc
    return scalar_or(I, r, 'f')


def spl_eval(I, sp, x, der):
    d = sp.data
    X, _ = to_nd(I, x)
    name = d['name'] if der == 0 else d['name'] + ':d%d' % der
    if d['f'].ndim != 1:
        raise Unsupported('spline of vectors')
    if d['p'].shape != d['f'].shape:
        return I.raise_b('ValueError', 'x and y should have a same shape')
    return combine(I, name, X, d['p'], d['f'])


def mk_spline(I, x, y, name, k=3, strict=True):
    p, _ = to_nd(I, x)
    f, _ = to_nd(I, y)
    if p.ndim != 1:
        raise Unsupported('spline')
    if p.shape != f.shape:
        return I.raise_b('TypeError' if strict else 'ValueError', 'Lengths of the spline arguments differ')
    if strict and len(p) <= k:
        return I.raise_b('TypeError', 'm > k must hold')
    return ExtObj('spline', dict(p=p.copy(), f=f.copy(), name=name), I.pc)


# ---- installation ---------------------------------------------------------------------------------------------------
def install(self):
    E, X, H = self.ext, self.extattr, self.extmeth
    I0 = self

    def lifted(f):
        def g(I, a, k):
            a = [I.simp(x) for x in a]
            k = {n: I.simp(x) for n, x in k.items()}
            for x in list(a) + list(k.values()):
                if isinstance(x, Opaque):
                    return x
                if x is UNSET:
                    return UNSET
            for i, x in enumerate(a):
                if isinstance(x, DD) and has_obj(x):
                    return I.lift_cases(x, lambda l, i=i: g(I, a[:i] + [l] + a[i + 1:], k))
                if isinstance(x, PyList) and isinstance(x.v, DD):
                    return I.lift_cases(x.v, lambda l, i=i: g(I, a[:i] + [PyList(l, I.pc, a[i].kind)] + a[i + 1:], k))
            for n, x in k.items():
                if isinstance(x, DD) and has_obj(x):
                    return I.lift_cases(x, lambda l, n=n: g(I, a, dict(k, **{n: l})))
            try:
                return f(I, *a, **k)
            except Lift as l:
                return lift_inner(I, tuple(a), lambda w: g(I, list(w), k))
        return g

    def e(*names):
        def d(f):
            h = lifted(f)
            for n in names:
                E[n] = h
            return f
        return d

    self.np_register = e

    def n(*names):
        return e(*['numpy.' + x for x in names])

    # constants, dtypes
    X['numpy.pi'] = X['math.pi'] = X['scipy.pi'] = PIP
    X['numpy.nan'] = X['math.nan'] = X['numpy.NaN'] = X['numpy.NAN'] = NAN
    X['numpy.inf'] = X['math.inf'] = lambda I: INF
    X['numpy.NINF'] = lambda I: g_neg(INF)
    X['numpy.e'] = X['math.e'] = lambda I: g_exp(ONE)
    X['math.tau'] = g_mul(const(2), PIP)

    def num1(f):
        def g(I, x=0, *a):
            v = I.simp(x)
            if isinstance(v, (Arr, PyList, tuple)):
                r = asarray(I, v)
                if isinstance(r, Arr):
                    return I.mkarr(conv_nd(I, r.a, f), f)
                return r
            return b_float(I, v) if f == 'f' else b_int(I, v) if f == 'i' else I.truth(v)
        return g
    for t in FLOATS:
        e('numpy.' + t)(num1('f'))
    for t in INTS:
        e('numpy.' + t)(num1('i'))
    for t in BOOLS[:3]:
        e('numpy.' + t)(num1('b'))
    E['numpy.dtype'] = lambda I, a, k: a[0]

    # construction
    @n('array', 'asarray', 'asanyarray', 'ascontiguousarray', 'asfortranarray', 'require', 'asarray_chkfinite')
    def _(I, v, dtype=None, *a, copy=None, order=None, ndmin=0, **k):
        raise Unsupported('placeholder')

    def mk(copying):
        def f(I, v=UNSET, dtype=None, *a, copy=None, order=None, ndmin=0, **k):
            if 'object' in k:
                v = k['object']
            if 'a' in k:
                v = k['a']
            dt = dtype_of(I, dtype, None)
            c = copying if copy is None else I.truth(copy) is True
            r = asarray(I, v, dt, copy=c)
            if ndmin and isinstance(r, Arr):
                while r.a.ndim < ndmin:
                    r = I.wrap(r.a[None], r)
            return r
        return f
    n('array')(mk(True))
    n('asarray', 'asanyarray', 'ascontiguousarray', 'asfortranarray', 'require', 'asarray_chkfinite')(mk(False))

    @n('copy')
    def _(I, a, order='K', subok=False):
        return asarray(I, a, None, copy=True)

    def filler(vals):
        def f(I, shape, dtype=None, order='C', **k):
            dt = dtype_of(I, dtype)
            return I.mkarr(obj(ints(I, shape), vals[dt]), dt)
        return f
    n('zeros')(filler(ZEROS))
    n('ones')(filler(ONES))

    @n('empty')
    def _(I, shape, dtype=None, order='C', **k):
        dt = dtype_of(I, dtype)
        r = np.empty(ints(I, shape), dtype=object)
        for i in np.ndindex(*r.shape):
            r[i] = uninit(I, dt)
        return I.mkarr(r, dt)

    def uninit(I, dt):
        if dt != 'f':
            return Opaque('uninitialised memory')
        I.nunk += 1
        return apoly(sym('uninitialised#%d' % I.nunk))

    def filler_like(kind):
        def f(I, a, *rest, dtype=None, shape=None, **k):
            x, d = to_nd(I, a)
            if kind == 'full':
                val = rest[0] if rest else k['fill_value']
                dt = dtype_of(I, rest[1] if len(rest) > 1 else dtype, d)
            else:
                dt = dtype_of(I, rest[0] if rest else dtype, d)
            sh = x.shape if shape is None else ints(I, shape)
            if kind == 'empty':
                r = np.empty(sh, dtype=object)
                for i in np.ndindex(*sh):
                    r[i] = uninit(I, dt)
                return scalar_or(I, r, dt)
            v = ZEROS[dt] if kind == 'zeros' else ONES[dt] if kind == 'ones' else I.conv_elem(val, dt)
            return scalar_or(I, obj(sh, v), dt)
        return f
    for kd in ('zeros', 'ones', 'empty', 'full'):
        n(kd + '_like')(filler_like(kd))

    @n('full')
    def _(I, shape, fill_value, dtype=None, order='C', **k):
        sh = ints(I, shape)
        if isinstance(fill_value, (Arr, PyList, tuple)):
            x, d = to_nd(I, fill_value)
            dt = dtype_of(I, dtype, d)
            return I.mkarr(conv_nd(I, np.broadcast_to(x, sh), dt), dt)
        dt = dtype_of(I, dtype, sdt(fill_value))
        return I.mkarr(obj(sh, I.conv_elem(fill_value, dt)), dt)

    @n('eye', 'identity')
    def _(I, N, M=None, k=0, dtype=None, **kw):
        dt = dtype_of(I, dtype)
        N = I.toint(N)
        M = N if M is None else I.toint(M)
        r = obj((N, M), ZEROS[dt])
        for i in range(N):
            if 0 <= i + k < M:
                r[i, i + k] = ONES[dt]
        return I.mkarr(r, dt)

    @n('arange')
    def _(I, start, stop=None, step=1, dtype=None, **k):
        if stop is None:
            start, stop = 0, start
        dt = dtype_of(I, dtype, None)
        cs = []
        for v in (start, stop, step):
            if isinstance(v, DD):
                v = I.toint(v)
            p = num(v)
            if p is None or p.const() is None:
                raise Unsupported('arange of symbolic bounds')
            cs.append(Q(p.const()))
        isint = all(isinstance(v, int) for v in (start, stop, step))
        out = []
        x = cs[0]
        while (x < cs[1]) if cs[2] > 0 else (x > cs[1]):
            out.append(int(x) if isint else const(x))
            x += cs[2]
            if len(out) > 100000:
                raise Unsupported('arange too long')
        r = np.empty(len(out), dtype=object)
        r[:] = out
        d = 'i' if isint else 'f'
        if dt is not None and dt != d:
            r = conv_nd(I, r, dt)
            d = dt
        return I.mkarr(r, d)

    @n('linspace')
    def _(I, start, stop, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
        N = I.toint(num)
        ep = I.truth(endpoint) is True
        dv = (N - 1) if ep else N
        a, _ = to_nd(I, start)
        b, _ = to_nd(I, stop)
        sh = np.broadcast_shapes(a.shape, b.shape)
        a, b = np.broadcast_to(a, sh), np.broadcast_to(b, sh)
        r = np.empty((N,) + sh, dtype=object)
        for i in range(N):
            for j in np.ndindex(*sh):
                s = tofloat(a[j])
                if dv > 0:
                    r[(i,) + j] = tofloat(b[j]) if ep and i == N - 1 else g_add(s, g_mul(const(Q(i, dv)), g_sub(tofloat(b[j]), s)))
                else:
                    r[(i,) + j] = s
        if I.toint(axis) != 0:
            r = np.moveaxis(r, 0, I.toint(axis))
        dt = dtype_of(I, dtype)
        if dt != 'f':
            r = conv_nd(I, r, dt)
        out = I.mkarr(r, dt)
        if retstep:
            st = nd(np.frompyfunc(lambda x, y: g_div(g_sub(tofloat(y), tofloat(x)), const(dv)), 2, 1)(a, b)) if dv else NAN
            return (out, scalar_or(I, st, 'f') if isinstance(st, np.ndarray) else st)
        return out

    @n('meshgrid')
    def _(I, *xs, indexing='xy', sparse=False, copy=True):
        arrs = [to_nd(I, x) for x in xs]
        g = np.meshgrid(*[a for a, _ in arrs], indexing=indexing)
        return I.mklist([I.mkarr(np.array(x, dtype=object), d) for x, (_, d) in zip(g, arrs)])

    @n('diag')
    def _(I, v, k=0):
        a, d = to_nd(I, v)
        k = I.toint(k)
        if a.ndim == 1:
            m = len(a) + abs(k)
            r = obj((m, m), ZEROS[d])
            for i, x in enumerate(a):
                r[i + max(-k, 0), i + max(k, 0)] = x
            return I.mkarr(r, d)
        return I.mkarr(np.diagonal(a, k).copy(), d)

    # elementwise
    def un(name, f, dt):
        def g(I, x, out=None, dtype=None, where=None, **k):
            if where is not None and where is not True:
                r = g(I, x)
                o = out[0] if isinstance(out, tuple) else out
                w = I.mkarr(to_nd(I, where)[0], 'b')
                if o is None and not all(t is True for t in w.a.ravel()):
                    raise Unsupported('where without out')
                r = r if o is None else elementwise(I, lambda c, p, q: ite(I.truth(c), I.conv_elem(p, o.dt), q), (w, r, o), o.dt)
                return r if o is None else ret(I, r.a if isinstance(r, Arr) else r, o.dt, o)
            if isinstance(x, (Arr, PyList, tuple, range)) or (isinstance(x, ExtObj) and x.kind in ('series', 'column')):
                a, d = to_nd(I, x)
                r = np.frompyfunc(f, 1, 1)(a)
                return ret(I, nd(r), dt or ('i' if d == 'b' else d), out)
            if isinstance(x, ExtObj):
                return Opaque('external value')
            if x is None or isinstance(x, (str, SStr, PyDict)):
                return I.raise_b('TypeError', 'ufunc %s not supported for the input types' % name)
            return ret(I, f(x), dt or sdt(x), out)
        return g
    for nm, (f, dt) in UN.items():
        g = un(nm, f, dt)
        e('numpy.' + nm, 'math.' + nm)(g)
    e('scipy.special.cbrt')(un('cbrt', UN['cbrt'][0], 'f'))

    one_log = E['math.log']
    e('math.log')(lambda I, x, base=None: one_log(I, [x], {}) if base is None else I.binop('Div', one_log(I, [x], {}), one_log(I, [base], {})))

    def bi(name, f):
        def g(I, x, y, out=None, dtype=None, where=None, **k):
            if where is not None and where is not True:
                # elements where the condition fails keep what out holds
                r = g(I, x, y)
                o = out[0] if isinstance(out, tuple) else out
                w = I.mkarr(to_nd(I, where)[0], 'b')
                if o is None and not all(t is True for t in w.a.ravel()):
                    raise Unsupported('where without out')
                r = r if o is None else elementwise(I, lambda c, p, q: ite(I.truth(c), I.conv_elem(p, o.dt), q), (w, r, o), o.dt)
                return r if o is None else ret(I, r.a if isinstance(r, Arr) else r, o.dt, o)
            for v in (x, y):
                if v is None or isinstance(v, (str, SStr, PyDict)):
                    return I.raise_b('TypeError', 'ufunc %s not supported for the input types' % name)
            dt = res_dt(BDT.get(name, 'Add'), dt_of2(I, x), dt_of2(I, y))
            r = elementwise(I, f, (x, y), dt)
            if out is not None:
                return ret(I, r.a if isinstance(r, Arr) else r, dt, out)
            return r
        return g

    def dt_of2(I, v):
        if isinstance(v, (PyList, tuple, range)):
            return to_nd(I, v)[1]
        return dt_of(v)

    for nm, f in BIN.items():
        e('numpy.' + nm, 'math.' + nm)(bi(nm, f))
    e('math.pow')(bi('power', lambda a, b: SOPS['Pow'](tofloat(a), tofloat(b))))
    for nm, op in CMP.items():
        def cmpf(I, x, y, op=op, **k):
            if isinstance(x, (PyList, tuple)):
                x = asarray(I, x)
            if isinstance(y, (PyList, tuple)):
                y = asarray(I, y)
            return I.compare(op, x, y)
        n(nm)(cmpf)

    def logic(fn):
        def g(I, x, y, **k):
            return elementwise(I, lambda a, b: fn(I.truth(a), I.truth(b)), (x, y), 'b')
        return g
    n('logical_and')(logic(g_and))
    n('logical_or')(logic(g_or))
    n('logical_xor')(logic(lambda a, b: g_or(g_and(a, g_not(b)), g_and(b, g_not(a)))))
    n('bitwise_and')(logic(g_and))
    n('bitwise_or')(logic(g_or))

    @n('logical_not', 'invert', 'bitwise_not')
    def _(I, x, **k):
        return elementwise(I, lambda a: g_not(I.truth(a)), (x,), 'b')

    @n('isclose')
    def _(I, a, b, rtol=Q(1, 10 ** 5), atol=Q(1, 10 ** 8), equal_nan=False):
        rt, at = num_(rtol), num_(atol)
        return elementwise(I, lambda x, y: close(x, y, rt, at), (a, b), 'b')

    def num_(x):
        return const(x) if isinstance(x, Q) else tofloat(x)

    @n('allclose')
    def _(I, a, b, rtol=Q(1, 10 ** 5), atol=Q(1, 10 ** 8), equal_nan=False):
        rt, at = num_(rtol), num_(atol)
        r = elementwise(I, lambda x, y: close(x, y, rt, at), (a, b), 'b')
        if isinstance(r, Arr):
            t = True
            for x in r.a.ravel():
                t = g_and(t, I.truth(x))
            return t
        return I.truth(r)

    @e('math.isclose')
    def _(I, a, b, rel_tol=Q(1, 10 ** 9), abs_tol=0):
        x, y = tofloat(a), tofloat(b)
        if same(x, y):
            return True
        d = g_abs(g_sub(x, y))
        lim = extremum('max', [mul(num_(rel_tol), extremum('max', [g_abs(x), g_abs(y)])), tofloat(abs_tol)])
        return scal_cmp('LtE', d, lim)

    @n('array_equal', 'array_equiv')
    def _(I, a, b, equal_nan=False):
        x, _ = to_nd(I, a)
        y, _ = to_nd(I, b)
        if x.shape != y.shape:
            return False
        t = True
        for p, q in zip(x.ravel(), y.ravel()):
            t = g_and(t, I.truth(I.compare('Eq', p, q)))
        return t

    @n('where', 'select_')
    def _(I, c, *xy):
        if not xy:
            a, _ = to_nd(I, c)
            bs = [I.truth(x) for x in a.ravel()]
            if not all(isinstance(b, bool) for b in bs):
                if a.ndim == 1:
                    return (I.call_ext('numpy.flatnonzero', [c], {}),)
                raise Unsupported('where of symbolic conditions')
            r = np.nonzero(np.array(bs, dtype=bool).reshape(a.shape))
            return tuple(I.mkarr(np.array([int(v) for v in q], dtype=object), 'i') for q in r)
        x, y = xy
        dt = I.join_dt([dt_of2(I, x), dt_of2(I, y)])
        return elementwise(I, lambda g, p, q: ite(I.truth(g), I.conv_elem(p, dt), I.conv_elem(q, dt)), (c, x, y), dt)

    @n('select')
    def _(I, conds, choices, default=0):
        cs, ch = I.iter_plain(conds), I.iter_plain(choices)
        dt = I.join_dt([dt_of2(I, x) for x in ch] + ['f'])
        r = default
        for c, x in reversed(list(zip(cs, ch))):
            r = elementwise(I, lambda g, p, q: ite(I.truth(g), I.conv_elem(p, dt), I.conv_elem(q, dt)), (c, x, r), dt)
        return r

    @n('piecewise')
    def _(I, x, condlist, funclist, *args, **kw):
        a, d = to_nd(I, x)
        conds = condlist if isinstance(condlist, Arr) and condlist.a.ndim > a.ndim else None
        cs = [Arr(conds.a[i], 'b') for i in range(conds.a.shape[0])] if conds is not None else list(I.iter_plain(condlist))
        if cs and not isinstance(cs[0], (Arr, PyList, tuple)) and a.ndim:
            cs = [condlist]
        fs = list(I.iter_plain(funclist))
        if len(fs) not in (len(cs), len(cs) + 1):
            return I.raise_b('ValueError', 'the number of functions does not fit the number of conditions')
        out = np.empty(a.shape, dtype=object)
        for i in np.ndindex(*a.shape):
            gs = [I.truth(np.broadcast_to(to_nd(I, c)[0], a.shape)[i]) for c in cs]
            v = ZERO
            rest = True
            for g in gs:
                rest = g_and(rest, g_not(g))
            todo = list(zip(gs, fs)) + ([(rest, fs[-1])] if len(fs) > len(cs) else [])
            for g, f in todo:
                if isinstance(f, (FuncVal, Bound, Builtin, ExtVal)):
                    # called with the sub-array of the points concerned: a function that works point by point
                    box = [v]

                    def run(f=f, box=box):
                        box[0] = I.call(f, [Arr(np.array([a[i], None], dtype=object)[:1], d)] + list(args), dict(kw))
                    I.branch(g, run, lambda: None)
                    r = lift(lambda l: l.a.ravel()[0] if isinstance(l, Arr) and l.a.size == 1 else l, box[0])
                else:
                    r = f
                v = I.gite(g, r, v)
            out[i] = I.conv_elem(v, d)
        return scalar_or(I, out if a.ndim else out[()], d)

    @n('clip')
    def _(I, a, a_min=None, a_max=None, out=None, **k):
        a_min = k.get('min', a_min)
        a_max = k.get('max', a_max)
        r = a
        if a_min is not None:
            r = elementwise(I, xmax('max'), (r, a_min), res_dt('Add', dt_of2(I, r), dt_of2(I, a_min)))
        if a_max is not None:
            r = elementwise(I, xmax('min'), (r, a_max), res_dt('Add', dt_of2(I, r), dt_of2(I, a_max)))
        return ret(I, r.a, r.dt, out) if out is not None and isinstance(r, Arr) else r

    @n('nan_to_num')
    def _(I, x, copy=True, nan=0, **k):
        return elementwise(I, lambda a: lift(lambda l: tofloat(nan) if l is NAN else l, a), (x,), 'f')

    @n('round', 'around', 'round_', 'rint')
    def _(I, x, decimals=0, out=None):
        from .libmodel import b_round
        if isinstance(x, (Arr, PyList, tuple)):
            a, d = to_nd(I, x)
            return ret(I, nd(np.frompyfunc(lambda v: b_round(I, v, None if decimals == 0 else decimals), 1, 1)(a)), d, out)
        return tofloat(b_round(I, x, None if decimals == 0 else decimals))

    @n('trunc', 'fix')
    def _(I, x):
        return elementwise(I, lambda a: lift(lambda l: I.trunc(l) if isinstance(l, Poly) else l, a), (x,), 'f')
    e('math.trunc')(lambda I, x: b_int(I, x))
    e('math.floor')(lambda I, x: lift(lambda l: int(l.const()) if isinstance(l, Poly) and l.const() is not None else l, g_floor(x)))
    e('math.ceil')(lambda I, x: lift(lambda l: int(l.const()) if isinstance(l, Poly) and l.const() is not None else l, g_ceil(x)))

    @e('math.copysign', 'numpy.copysign')
    def _(I, a, b):
        return elementwise(I, lambda x, y: g_mul(g_abs(tofloat(x)), lift(lambda l: l if isinstance(l, Opaque) else sgn3(l, const(-1), ONE, ONE), tofloat(y))), (a, b), 'f')

    @e('math.fsum')
    def _(I, v):
        return tofloat(b_sum(I, v))

    @e('math.dist')
    def _(I, p, q):
        return np_norm(I, I.binop('Sub', asarray(I, p), asarray(I, q)))

    @e('math.hypot')
    def _(I, *xs):
        return g_sqrt(tofloat(sqsum([tofloat(x) for x in xs])))

    # reductions
    n('sum', 'nansum', 'add.reduce')(np_sum)

    @n('add.reduce')
    def _(I, v, axis=0, **k):
        return np_sum(I, v, axis, **k)

    @n('multiply.reduce')
    def _(I, v, axis=0, **k):
        return np_prod(I, v, axis, **k)
    n('prod')(np_prod)
    e('math.prod')(lambda I, v, start=1: I.binop('Mult', np_prod(I, v), start))
    n('mean', 'nanmean')(np_mean)
    n('average')(np_average)
    n('max', 'amax', 'nanmax')(np_ext('max'))
    n('min', 'amin', 'nanmin')(np_ext('min'))
    n('any')(np_quant(False))
    n('all')(np_quant(True))
    n('linalg.norm')(np_norm)
    e('scipy.linalg.norm')(np_norm)

    @n('ptp')
    def _(I, v, axis=None, **k):
        return I.binop('Sub', np_ext('max')(I, v, axis), np_ext('min')(I, v, axis))

    @n('cumsum', 'add.accumulate')
    def _(I, v, axis=None, dtype=None, out=None):
        a, d = to_nd(I, v)
        if axis is None:
            a = a.ravel()
            axis = 0
        return ret(I, accumulate(a, I.toint(axis), add), 'i' if d == 'b' else d, out)

    @n('cumprod')
    def _(I, v, axis=None, dtype=None, out=None):
        a, d = to_nd(I, v)
        if axis is None:
            a = a.ravel()
            axis = 0
        return ret(I, accumulate(a, I.toint(axis), mul), d, out)

    for uf, op_, lt in (('maximum', lambda p, q: extremum('max', [p, q]), False), ('minimum', lambda p, q: extremum('min', [p, q]), False),
                        ('fmax', lambda p, q: extremum('max', [p, q]), False), ('fmin', lambda p, q: extremum('min', [p, q]), False),
                        ('multiply', mul, False), ('subtract', SOPS['Sub'], False), ('logical_or', None, True), ('logical_and', None, True)):
        def acc(I, v, axis=0, dtype=None, out=None, op_=op_, lt=lt, uf=uf):
            a, d = to_nd(I, v)
            if lt:
                f = g_or if uf == 'logical_or' else g_and
                a = nd(np.frompyfunc(lambda x: I.truth(x), 1, 1)(a))
                return ret(I, accumulate(a, I.toint(axis), lambda p, q: f(p, q)), 'b', out)
            return ret(I, accumulate(a, I.toint(axis), op_), d, out)
        n(uf + '.accumulate')(acc)

    def accumulate(a, axis, op):
        r = np.moveaxis(np.array(a, dtype=object, copy=True), axis, 0)
        for i in range(1, r.shape[0]):
            r[i] = np.frompyfunc(op, 2, 1)(r[i - 1], r[i])
        return np.moveaxis(r, 0, axis)

    @n('diff')
    def _(I, v, n=1, axis=-1, prepend=None, append=None):
        a, d = to_nd(I, v)
        if prepend is not None or append is not None:
            ax = I.toint(axis) % a.ndim
            parts = [a]
            for x, pos in ((prepend, 0), (append, None)):
                if x is None:
                    continue
                b, db = to_nd(I, x)
                if b.ndim == 0:
                    b = np.broadcast_to(b, a.shape[:ax] + (1,) + a.shape[ax + 1:])
                parts.insert(0 if pos == 0 else len(parts), b)
                d = 'f' if 'f' in (d, db) else d
            a = np.concatenate(parts, axis=ax)
        for _i in range(I.toint(n)):
            m = np.moveaxis(a, I.toint(axis), 0)
            a = np.moveaxis(np.frompyfunc(SOPS['Sub'], 2, 1)(m[1:], m[:-1]), 0, I.toint(axis))
        return I.mkarr(a, d)

    @n('count_nonzero')
    def _(I, v, axis=None, **k):
        a, d = to_nd(I, v)
        r = reduce_(lambda xs: ssum([lift(lambda l: 1 if l is True else 0, I.truth(x)) for x in xs]), a, ax_arg(I, axis), False, 0)
        return scalar_or(I, r, 'i')

    @n('nonzero')
    def _(I, v):
        return where_true(I, v, lambda m: tuple(I.mkarr(np.array(list(x) + [None], dtype=object)[:-1], 'i') for x in
                                                [[int(y) for y in z] for z in np.nonzero(m)]))

    def where_true(I, v, fn):
        a, d = to_nd(I, v)
        m = I.mkarr(np.frompyfunc(I.truth, 1, 1)(a) if a.ndim else nd(I.truth(a[()])), 'b')
        if I.symbolic_mask(m):
            return I.lift_cases(I.split_masks(m), lambda c: fn(c[0].a.astype(bool)))
        return fn(m.a.astype(bool))

    @n('flatnonzero')
    def _(I, v):
        return where_true(I, v, lambda m: intarr(I, np.flatnonzero(m)))

    @n('argwhere')
    def _(I, v):
        return where_true(I, v, lambda m: intarr(I, np.argwhere(m)))

    def intarr(I, x):
        r = np.empty(x.shape, dtype=object)
        for i in np.ndindex(*x.shape):
            r[i] = int(x[i])
        return I.mkarr(r, 'i')

    @n('extract')
    def _(I, c, v):
        return I.getitem(I.mkarr(to_nd(I, v)[0].ravel(), to_nd(I, v)[1]), I.mkarr(to_nd(I, c)[0].ravel(), 'b'))

    @n('compress')
    def _(I, c, v, axis=None, out=None):
        a, d = to_nd(I, v)
        if axis is None:
            a, axis = a.ravel(), 0
        c = to_nd(I, c)[0]
        pad = np.empty(a.shape[I.toint(axis)], dtype=object)
        pad.fill(False)
        pad[:len(c)] = np.frompyfunc(I.truth, 1, 1)(c)
        return I.getitem(I.mkarr(a, d), (SliceVal(None, None, None),) * (I.toint(axis) % a.ndim) + (I.mkarr(pad, 'b'),))

    @n('trapz', 'trapezoid')
    def _(I, y, x=None, dx=1, axis=-1):
        a, _ = to_nd(I, y)
        if a.ndim != 1:
            raise Unsupported('trapezoid')
        acc = ZERO
        xs = None if x is None else to_nd(I, x)[0]
        for i in range(len(a) - 1):
            h = tofloat(dx) if xs is None else g_sub(tofloat(xs[i + 1]), tofloat(xs[i]))
            acc = g_add(acc, g_mul(g_mul(h, const(Q(1, 2))), g_add(tofloat(a[i]), tofloat(a[i + 1]))))
        return acc

    # products
    @n('dot')
    def _(I, a, b, out=None):
        return dot(I, a, b, False, out)

    @n('matmul')
    def _(I, a, b, out=None, **k):
        return dot(I, a, b, True, out)

    @n('vdot')
    def _(I, a, b):
        x, _ = to_nd(I, a)
        y, _ = to_nd(I, b)
        return ssum([mul(p, q) for p, q in zip(x.ravel(), y.ravel())])

    @n('inner')
    def _(I, a, b):
        x, dx = to_nd(I, a)
        y, dy = to_nd(I, b)
        if x.ndim == 0 or y.ndim == 0:
            return dot(I, a, b)
        return scalar_or(I, dot_nd(x, np.moveaxis(y, -1, -2) if y.ndim > 1 else y), res_dt('Mult', dx, dy))

    @n('outer', 'multiply.outer')
    def _(I, a, b, out=None):
        x, dx = to_nd(I, a)
        y, dy = to_nd(I, b)
        return I.mkarr(np.frompyfunc(mul, 2, 1)(x.ravel()[:, None], y.ravel()[None, :]), res_dt('Mult', dx, dy))

    @n('subtract.outer')
    def _(I, a, b):
        x, dx = to_nd(I, a)
        y, dy = to_nd(I, b)
        return I.mkarr(np.frompyfunc(SOPS['Sub'], 2, 1)(x.reshape(x.shape + (1,) * y.ndim), y), res_dt('Add', dx, dy))

    @n('tensordot')
    def _(I, a, b, axes=2):
        x, dx = to_nd(I, a)
        y, dy = to_nd(I, b)
        if isinstance(axes, int):
            ax_a = list(range(x.ndim - axes, x.ndim))
            ax_b = list(range(axes))
        else:
            q = I.iter_plain(axes)
            ax_a = [i % x.ndim for i in ints(I, q[0])]
            ax_b = [i % y.ndim for i in ints(I, q[1])]
        fa = [i for i in range(x.ndim) if i not in ax_a]
        fb = [i for i in range(y.ndim) if i not in ax_b]
        p = x.transpose(fa + ax_a)
        q = y.transpose(ax_b + fb)
        ka = int(np.prod([x.shape[i] for i in ax_a], dtype=int))
        r = dot_nd(p.reshape(-1, ka), q.reshape(ka, -1)).reshape([x.shape[i] for i in fa] + [y.shape[i] for i in fb])
        return scalar_or(I, r, res_dt('Mult', dx, dy))

    n('cross', 'linalg.cross')(np_cross)
    n('einsum')(np_einsum)

    @n('linalg.multi_dot')
    def _(I, arrs, out=None):
        it = I.iter_plain(arrs)
        # associate from the vectors' side: cheaper
        r = it[-1]
        for a in reversed(it[:-1]):
            r = dot(I, a, r)
        return r
    e('numpy.linalg.solve', 'scipy.linalg.solve')(np_solve)

    e('numpy.linalg.inv', 'scipy.linalg.inv')(np_inv)
    e('scipy.linalg.lu_factor')(lambda I, A, **k: ExtObj('lu', dict(A=A)))
    e('scipy.linalg.lu_solve')(lambda I, lu, b, **k: np_solve(I, lu.data['A'], b))

    @n('linalg.det')
    def _(I, A):
        a, _ = to_nd(I, A)

        def det(m):
            if m.shape[0] == 1:
                return m[0, 0]
            acc = 0
            for j in range(m.shape[0]):
                sub = np.delete(np.delete(m, 0, 0), j, 1)
                t = mul(m[0, j], det(sub))
                acc = add(acc, t) if j % 2 == 0 else SOPS['Sub'](acc, t)
            return acc
        if a.ndim != 2 or a.shape[0] > 4:
            raise Unsupported('det')
        return tofloat(det(a))

    @n('trace')
    def _(I, a, offset=0, axis1=0, axis2=1, **k):
        x, d = to_nd(I, a)
        return scalar_or(I, reduce_(ssum, np.diagonal(x, offset, axis1, axis2), -1, False, 0), d)

    # shape
    def joiner(name):
        def f(I, arrs, axis=0, out=None, dtype=None, **k):
            it = I.iter_plain(arrs) if not isinstance(arrs, Arr) else [I.wrap(x, arrs) for x in arrs.a]
            if it is None:
                raise Unsupported(name)
            if any(isinstance(I.simp(x), Opaque) for x in it):
                return next(I.simp(x) for x in it if isinstance(I.simp(x), Opaque))
            ps = [to_nd(I, x) for x in it]
            a = [p[0] for p in ps]
            try:
                if name == 'concatenate':
                    r = np.concatenate(a, axis=ax_arg(I, axis))
                elif name == 'stack':
                    r = np.stack(a, axis=ax_arg(I, axis))
                else:
                    r = getattr(np, name)(a)
            except ValueError as ex:
                return I.raise_b('ValueError', str(ex))
            dts = {p[1] for p in ps if p[0].size} or {p[1] for p in ps}
            dt = I.join_dt(dts | ({'f'} if any(p[1] == 'f' for p in ps) and not dts & {'U', 'O'} else set()))
            if any(x is not dt for x in dts) and dt == 'f':
                r = conv_nd(I, r, 'f')
            return ret(I, r, dt, out)
        return f
    for nm in ('concatenate', 'stack', 'vstack', 'hstack', 'column_stack', 'dstack', 'row_stack'):
        n(nm)(joiner('vstack' if nm == 'row_stack' else nm))
    n('concat')(joiner('concatenate'))

    @n('append')
    def _(I, arr, values, axis=None):
        x, dx = to_nd(I, arr)
        y, dy = to_nd(I, values)
        try:
            r = np.append(x, y, axis=ax_arg(I, axis))
        except ValueError as ex:
            return I.raise_b('ValueError', str(ex))
        dts = {d for a, d in ((x, dx), (y, dy)) if a.size} or {dx, dy}
        return I.mkarr(r, I.join_dt(dts))

    @n('insert')
    def _(I, arr, ix, values, axis=None):
        x, dx = to_nd(I, arr)
        y, dy = to_nd(I, values)
        return I.mkarr(np.insert(x, I.npindex(ix), y, axis=ax_arg(I, axis)), I.join_dt({dx, dy}))

    @n('delete')
    def _(I, arr, ix, axis=None):
        x, dx = to_nd(I, arr)
        return I.mkarr(np.delete(x, I.npindex(ix), axis=ax_arg(I, axis)), dx)

    def splitter(strict):
        def f(I, ary, sections, axis=0):
            if isinstance(ary, ExtObj) and ary.kind == 'df':
                N = ary.data['n']
                k = I.toint(sections)
                if strict and N % k:
                    return I.raise_b('ValueError', 'array split does not result in an equal division')
                q, rem = divmod(N, k)
                sizes = [q + 1] * rem + [q] * (k - rem)
                out = []
                p = 0
                for s in sizes:
                    out.append(I.df_rows(I, ary, slice(p, p + s)))
                    p += s
                return I.mklist(out)
            a = asarray(I, ary)
            if not isinstance(a, Arr):
                return a
            sec = sections
            if isinstance(sec, (PyList, tuple, Arr)):
                sec = [I.toint(x) for x in I.iter_plain(sec)]
            else:
                sec = I.toint(sec)
                if sec <= 0:
                    return I.raise_b('ValueError', 'number sections must be larger than 0.')
            try:
                r = (np.split if strict else np.array_split)(a.a, sec, axis=I.toint(axis))
            except ValueError as ex:
                return I.raise_b('ValueError', str(ex))
            return I.mklist([I.wrap(x, a) for x in r])
        return f
    n('split')(splitter(True))
    n('array_split')(splitter(False))
    n('vsplit')(splitter(True))
    n('hsplit')(lambda I, a, s: splitter(True)(I, a, s, 1 if to_nd(I, a)[0].ndim > 1 else 0))

    def viewf(name, fn):
        def f(I, a, *rest, **k):
            a = asarray(I, a)
            if not isinstance(a, Arr):
                return a
            try:
                r = fn(I, a.a, *rest, **k)
            except (ValueError, IndexError) as ex:
                return I.raise_b('ValueError', str(ex))
            if isinstance(r, np.ndarray) and np.shares_memory(r, a.a):
                return I.wrap(r, a)
            return scalar_or(I, r, a.dt)
        n(name)(f)
        return f

    def reshape_args(I, sh):
        if len(sh) == 1 and isinstance(sh[0], (tuple, PyList, Arr)):
            return ints(I, sh[0])
        return tuple(I.toint(x) for x in sh)
    V = {}
    V['reshape'] = viewf('reshape', lambda I, a, *sh, order='C', newshape=None, shape=None: a.reshape(
        reshape_args(I, sh if sh else (newshape if newshape is not None else shape,)), order=order))
    viewf('transpose', lambda I, a, axes=None: a.transpose(None if axes is None else ints(I, axes)))
    viewf('swapaxes', lambda I, a, x, y: a.swapaxes(I.toint(x), I.toint(y)))
    viewf('moveaxis', lambda I, a, s, d: np.moveaxis(a, ints(I, s), ints(I, d)))
    viewf('rollaxis', lambda I, a, s, d=0: np.rollaxis(a, s, d))
    viewf('ravel', lambda I, a, order='C': a.ravel(order))
    viewf('squeeze', lambda I, a, axis=None: a.squeeze(axis=ax_arg(I, axis)))
    viewf('expand_dims', lambda I, a, axis=None: np.expand_dims(a, ax_arg(I, axis)))
    viewf('broadcast_to', lambda I, a, sh, **k: np.broadcast_to(a, ints(I, sh)))
    viewf('flip', lambda I, m, axis=None: np.flip(m, ax_arg(I, axis)))
    viewf('flipud', lambda I, m: np.flipud(m))
    viewf('fliplr', lambda I, m: np.fliplr(m))
    viewf('rot90', lambda I, m, k=1, axes=(0, 1): np.rot90(m, k, axes))
    viewf('roll', lambda I, a, s, axis=None: np.roll(a, ints(I, s) if isinstance(s, (tuple, PyList)) else I.toint(s), ax_arg(I, axis)))
    viewf('repeat', lambda I, a, r, axis=None: np.repeat(a, [I.toint(x) for x in I.iter_plain(r)] if isinstance(r, (PyList, tuple, Arr)) else I.toint(r), ax_arg(I, axis)))
    viewf('tile', lambda I, a, reps: np.tile(a, ints(I, reps)))
    viewf('diagonal', lambda I, a, offset=0, axis1=0, axis2=1: np.diagonal(a, offset, axis1, axis2))
    viewf('take', lambda I, a, ix, axis=None, **k: np.take(a, I.npindex(ix), axis=ax_arg(I, axis)))
    viewf('tril', lambda I, a, k=0: tri(a, k, True))
    viewf('triu', lambda I, a, k=0: tri(a, k, False))
    viewf('resize', lambda I, a, sh: np.resize(a, ints(I, sh)))
    viewf('atleast_1d', lambda I, a: np.atleast_1d(a))
    viewf('atleast_2d', lambda I, a: np.atleast_2d(a))
    viewf('atleast_3d', lambda I, a: np.atleast_3d(a))

    def tri(a, k, low):
        r = a.copy()
        for i, j in np.ndindex(*a.shape):
            if (j - i > k) if low else (j - i < k):
                r[i, j] = ZERO
        return r

    @n('shape')
    def _(I, a):
        return to_nd(I, a)[0].shape

    @n('ndim')
    def _(I, a):
        return to_nd(I, a)[0].ndim

    @n('size')
    def _(I, a, axis=None):
        x = to_nd(I, a)[0]
        return x.size if axis is None else x.shape[I.toint(axis)]

    @n('isscalar')
    def _(I, x):
        return not isinstance(x, (Arr, PyList, tuple, PyDict)) and x is not None

    @n('copyto')
    def _(I, dst, src, **k):
        if k:
            raise Unsupported('copyto')
        I.store_arr(dst, Ellipsis, src)
        return None

    @n('fill_diagonal')
    def _(I, a, val, **k):
        v = None if isinstance(val, (int, Poly, DD)) else to_nd(I, val)[0].ravel()
        for i in range(min(a.a.shape)):
            I.store_arr(a, (i,) * a.a.ndim, val if v is None else v[i % len(v)])
        return None

    @n('ndindex')
    def _(I, *sh):
        s = reshape_args(I, sh)
        return I.mklist([tuple(x) for x in np.ndindex(*s)])

    @n('ndenumerate')
    def _(I, a):
        x, _ = to_nd(I, a)
        return I.mklist([(tuple(i), x[i]) for i in np.ndindex(*x.shape)])

    @n('indices')
    def _(I, sh, **k):
        r = np.indices(ints(I, sh))
        return I.mkarr(np.frompyfunc(int, 1, 1)(r), 'i')

    E['numpy.vectorize'] = lambda I, a, k: Builtin('vectorized', lambda J, b, kk, f=a[0]: vec(J, f, b, kk))

    def vec(J, f, b, kk):
        arrs = [to_nd(J, x)[0] for x in b]
        sh = np.broadcast_shapes(*[x.shape for x in arrs])
        arrs = [np.broadcast_to(x, sh) for x in arrs]
        r = np.empty(sh, dtype=object)
        for i in np.ndindex(*sh):
            r[i] = J.call(f, [x[i] for x in arrs], dict(kk))
        return scalar_or(J, r, J.join_dt([sdt(x) for x in r.ravel()]) if r.size else 'f')

    @n('apply_along_axis')
    def _(I, f, axis, arr, *a, **k):
        x, d = to_nd(I, arr)
        m = np.moveaxis(x, I.toint(axis), -1)
        outs = []
        for i in np.ndindex(*m.shape[:-1]):
            outs.append(to_nd(I, I.call(f, [I.mkarr(m[i].copy(), d)] + list(a), dict(k))))
        sh = outs[0][0].shape
        r = np.empty(m.shape[:-1] + sh, dtype=object)
        for i, o in zip(np.ndindex(*m.shape[:-1]), outs):
            r[i] = o[0] if sh else o[0][()]
        if sh:
            r = np.moveaxis(r, -1, I.toint(axis))
        return scalar_or(I, r, outs[0][1])

    @n('fromiter')
    def _(I, it, dtype=None, *a, **k):
        return asarray(I, I.mklist(I.iter_plain(it)), dtype_of(I, dtype))

    n('interp')(np_interp)

    def noop(I, a, k):
        return None
    for nm in ('assert_almost_equal', 'assert_array_almost_equal', 'assert_array_equal', 'assert_equal', 'assert_allclose',
               'assert_approx_equal', 'assert_'):
        E['numpy.testing.' + nm] = lambda I, a, k, nm=nm: I.ev('np_assert', what=nm, args=a)
    for nm in ('seterr', 'set_printoptions', 'seterrcall'):
        E['numpy.' + nm] = lambda I, a, k, nm=nm: I.ev('np_global', what=nm)
    X['numpy.newaxis'] = None

    def np_io(mode):
        def f(I, a, k):
            p = a[0] if a else k.get('fname', k.get('file'))
            I.ev('open', path=p, mode=mode)
            return I.opaque('file contents') if mode == 'r' else None
        return f
    for nm in ('savetxt', 'save', 'savez', 'savez_compressed'):
        E['numpy.' + nm] = np_io('w')
    for nm in ('loadtxt', 'load', 'genfromtxt', 'fromfile'):
        E['numpy.' + nm] = np_io('r')

    # numba
    E['numba.prange'] = lambda I, a, k: I.builtins['range'].fn(I, a, k)

    def tlist(I, a, k):
        return I.mklist(I.iter_plain(a[0]) if a else [])
    ident = Builtin('identity', lambda I, a, k: a[0] if a else None)
    for nm in ('jit', 'njit', 'vectorize', 'guvectorize', 'stencil', 'generated_jit', 'cfunc'):
        E['numba.' + nm] = lambda I, a, k: a[0] if a and isinstance(a[0], (FuncVal, Bound)) else ident
    for nm in ('optional', 'types.Tuple', 'types.optional', 'float64', 'types.float64', 'boolean'):
        E['numba.' + nm] = lambda I, a, k: ident
    E['numba.typed.List'] = E['numba.typed.typedlist.List'] = tlist
    X['numba.prange'] = lambda I: I.builtins['range']

    # scipy
    @e('scipy.interpolate.splrep')
    def _(I, x, y, w=None, xb=None, xe=None, k=3, task=0, s=None, t=None, full_output=0, per=0, quiet=1):
        k = I.toint(k)
        smooth = not (s is None and w is None) and not (s is not None and num(s) is not None and num(s).const() == 0)
        if smooth or w is not None or t is not None or per or task or xb is not None or xe is not None:
            return mk_spline(I, x, y, 'spl:%d:other' % k, k)
        return mk_spline(I, x, y, 'hatx' if k == 1 else 'spl:%d' % k, k)

    @e('scipy.interpolate.splev')
    def _(I, x, tck, der=0, ext=0):
        der, ext = I.toint(der), I.toint(ext)
        if not (isinstance(tck, ExtObj) and tck.kind == 'spline'):
            raise Unsupported('splev of something else')
        if ext:
            sp = ExtObj('spline', dict(tck.data, name=tck.data['name'] + ':ext%d' % ext))
            return spl_eval(I, sp, x, der)
        return spl_eval(I, tck, x, der)

    @e('scipy.interpolate.CubicSpline')
    def _(I, x, y, axis=0, bc_type='not-a-knot', extrapolate=None):
        return mk_spline(I, x, y, 'spl:3' if bc_type == 'not-a-knot' else 'spl:3:%s' % bc_type, 3, strict=False)

    @e('scipy.interpolate.InterpolatedUnivariateSpline', 'scipy.interpolate.make_interp_spline')
    def _(I, x, y, *a, k=3, w=None, **kw):
        return mk_spline(I, x, y, 'hatx' if k == 1 else 'spl:%d' % I.toint(k), I.toint(k))

    @e('scipy.interpolate.UnivariateSpline')
    def _(I, x, y, *a, k=3, s=None, **kw):
        z = s is not None and num(s) is not None and num(s).const() == 0
        return mk_spline(I, x, y, 'spl:%d' % k if z else 'spl:%d:smooth' % k, I.toint(k))

    @e('scipy.interpolate.interp1d')
    def _(I, x, y, kind='linear', fill_value=None, bounds_error=None, **kw):
        nm = {'linear': 'hat', 'cubic': 'spl:3', 'quadratic': 'spl:2'}.get(kind)
        if nm is None:
            nm = 'interp1d:%s' % (kind,)
        return mk_spline(I, x, y, nm, 3 if kind == 'cubic' else 1, strict=False)
    for nm in ('Akima1DInterpolator', 'PchipInterpolator'):
        E['scipy.interpolate.' + nm] = lifted(lambda I, x, y, *a, nm=nm, **k: mk_spline(I, x, y, nm, 3, strict=False))

    def spcall(I, o, a, k):
        a = [I.simp(x) for x in a]
        nu = I.toint(a[1]) if len(a) > 1 else I.toint(k.get('nu', 0))
        return spl_eval(I, o, a[0], nu)
    H[('spline', '__call__')] = spcall

    def rotvec(I, v, degrees=False):
        a, _ = to_nd(I, v)
        if a.ndim != 1:
            raise Unsupported('stack of rotations')
        if I.truth(degrees) is True:
            a = np.frompyfunc(lambda x: g_mul(tofloat(x), DEG), 1, 1)(a)
        v = [tofloat(x) for x in a]
        return ExtObj('rotation', dict(M=rodrigues_vec(v)))

    def rodrigues_vec(v):
        t2 = tofloat(sqsum(v))
        nz = [x for x in v if not (isinstance(x, Poly) and not x.terms)]
        if not nz:
            M = obj((3, 3), ZERO)
            for i in range(3):
                M[i, i] = ONE
            return M
        if len(nz) == 1:
            # rotation about a coordinate axis: the signed angle is the component itself
            k = next(i for i, x in enumerate(v) if x is nz[0])
            t = nz[0]
            u = [ZERO] * 3
            u[k] = ONE
        else:
            t = g_sqrt(t2)
            u = [g_div(x, t) for x in v]
        return axis_angle(u, t)

    def axis_angle(u, t):
        c, s = g_cos(t), g_sin(t)
        M = np.empty((3, 3), dtype=object)
        K = [[ZERO, g_neg(u[2]), u[1]], [u[2], ZERO, g_neg(u[0])], [g_neg(u[1]), u[0], ZERO]]
        for i in range(3):
            for j in range(3):
                x = g_mul(g_sub(ONE, c), g_mul(u[i], u[j]))
                x = g_add(x, g_mul(s, K[i][j]))
                if i == j:
                    x = g_add(x, c)
                M[i, j] = x
        return M
    self.axis_angle = axis_angle
    for pre in ('scipy.spatial.transform.Rotation', 'scipy.spatial.transform._rotation.Rotation'):
        e(pre + '.from_rotvec')(rotvec)

        @e(pre + '.from_euler')
        def _(I, seq, angles, degrees=False):
            xs = I.iter_plain(angles) if isinstance(angles, (PyList, tuple, Arr)) else [angles]
            if not isinstance(seq, str) or len(seq) != len(xs):
                raise Unsupported('from_euler')
            M = None
            for ch, t in zip(seq, xs):
                t = tofloat(t)
                if I.truth(degrees) is True:
                    t = g_mul(t, DEG)
                u = [ZERO] * 3
                u['xyz'.index(ch.lower())] = ONE
                R = axis_angle(u, t)
                M = R if M is None else (dot_nd(R, M) if ch.islower() else dot_nd(M, R))
            return ExtObj('rotation', dict(M=M))

        @e(pre + '.from_matrix')
        def _(I, m):
            return ExtObj('rotation', dict(M=to_nd(I, m)[0]))
        e(pre + '.identity')(lambda I: rotvec(I, (0, 0, 0)))

    def r_apply(I, o, a, k):
        x, _ = to_nd(I, a[0])
        M = o.data['M']
        if (a[1] if len(a) > 1 else k.get('inverse', False)) is True:
            M = M.T
        return scalar_or(I, dot_nd(x, M.T), 'f')
    H[('rotation', 'apply')] = r_apply
    H[('rotation', 'as_matrix')] = lambda I, o, a, k: I.mkarr(o.data['M'].copy(), 'f')
    H[('rotation', 'as_dcm')] = H[('rotation', 'as_matrix')]
    H[('rotation', 'inv')] = lambda I, o, a, k: ExtObj('rotation', dict(M=o.data['M'].T.copy()))
    H[('rotation', 'binop')] = lambda I, o, a, k: ExtObj('rotation', dict(M=dot_nd(o.data['M'], a[1].data['M'])))

    # arrays
    self.asarray = lambda v, dt=None: asarray(I0, v, dt)
    self.dot = lambda a, b, matmul=False: dot(I0, a, b, matmul)
    methods = {}

    def am(*names):
        def d(f):
            for nm in names:
                methods[nm] = f
            return f
        return d
    from . import npmore
    npmore.install(self)
    for nm in ('transpose', 'reshape', 'ravel', 'squeeze', 'swapaxes', 'diagonal', 'repeat', 'dot', 'sum', 'mean', 'max', 'min', 'any',
               'all', 'prod', 'cumsum', 'round', 'clip', 'take', 'trace', 'nonzero', 'std', 'var', 'argmax', 'argmin', 'ptp', 'argsort', 'searchsorted'):
        f = E.get('numpy.' + nm)
        if f is not None:
            methods[nm] = lambda I, o, a, k, f=f: f(I, [o] + a, k)

    @am('transpose')
    def _(I, o, a, k):
        ax = a[0] if len(a) == 1 and isinstance(a[0], (tuple, PyList)) else (tuple(a) if a and a[0] is not None else None)
        return I.wrap(o.a.transpose(None if ax is None else ints(I, ax)), o)

    @am('copy', '__copy__')
    def _(I, o, a, k):
        return I.mkarr(o.a.copy(), o.dt)

    @am('flatten')
    def _(I, o, a, k):
        return I.mkarr(o.a.flatten(*a), o.dt)

    @am('astype')
    def _(I, o, a, k):
        dt = dtype_of(I, a[0] if a else k['dtype'])
        if dt == 'U':
            return I.mkarr(np.frompyfunc(lambda x: I.to_str(x), 1, 1)(o.a), 'U')
        return I.mkarr(conv_nd(I, o.a, dt), dt)

    @am('tolist')
    def _(I, o, a, k):
        def go(x):
            return I.mklist([go(y) if isinstance(y, np.ndarray) else y for y in x])
        return go(o.a) if o.a.ndim else o.a[()]

    @am('item')
    def _(I, o, a, k):
        if a:
            return o.a[I.npindex(a[0])] if isinstance(a[0], tuple) else o.a.ravel()[I.toint(a[0])]
        if o.a.size != 1:
            return I.raise_b('ValueError', 'can only convert an array of size 1 to a Python scalar')
        return o.a.ravel()[0]

    @am('fill')
    def _(I, o, a, k):
        I.store_arr(o, Ellipsis, a[0])
        return None

    @am('view')
    def _(I, o, a, k):
        return I.wrap(o.a.view(), o)

    @am('sort')
    def _(I, o, a, k):
        I.store_arr(o, Ellipsis, E['numpy.sort'](I, [o] + a, k))
        return None

    @am('resize', 'put', 'partition', 'itemset', 'setfield')
    def _(I, o, a, k):
        I.touch(o, 'array elements')
        o.a[...] = Opaque('in-place reordering')
        return None

    @am('setflags', 'dump', 'dumps', 'tofile')
    def _(I, o, a, k):
        if a:
            I.ev('open', path=a[0], mode='w')
        return None

    @am('conj', 'conjugate', '__array__')
    def _(I, o, a, k):
        return o

    @am('__len__')
    def _(I, o, a, k):
        return o.a.shape[0]

    def arr_attr(o, name):
        I = I0
        if name == 'shape':
            return tuple(o.a.shape)
        if name == 'ndim':
            return o.a.ndim
        if name == 'size':
            return o.a.size
        if name in ('T', 'mT'):
            return I.wrap(o.a.T, o)
        if name == 'real':
            return o
        if name == 'dtype':
            return ExtVal({'f': 'numpy.float64', 'i': 'numpy.int64', 'b': 'numpy.bool_', 'O': 'numpy.object_', 'U': 'numpy.str_'}[o.dt])
        if name == 'flat':
            return I.wrap(o.a.reshape(-1), o)
        if name == 'base':
            return None if o.a.base is None else Opaque('base')
        if name == 'nbytes':
            return o.a.size * 8
        f = methods.get(name)
        if f is None:
            if name.startswith('__'):
                return UNSET
            if hasattr(np.ndarray, name):
                return Opaque('no model of ndarray.%s' % name)
            return UNSET

        def g(J, a, k):
            try:
                return f(J, a[0], [J.simp(x) for x in a[1:]], k)
            except GatedIndex:
                raise
            except (Unsupported, IndexError, KeyError, TypeError, ValueError, AttributeError) as u:
                if isinstance(u, ValueError):
                    return J.raise_b('ValueError', str(u))
                return J.opaque('ndarray.%s not modelled for these arguments (%s)' % (name, u))
        return Bound(Builtin(name, g), o)
    self.arr_attr = arr_attr
