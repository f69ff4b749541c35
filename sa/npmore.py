"""More numpy: order statistics, least squares, polynomials, numerical derivatives and the like.  Each is expressed through the same exact
operations as the rest of the model; what depends on the order of symbolic values is gated on their comparisons or kept as a k-th smallest value."""
import numpy as np

from .terms import *
from .values import *
from .interp import Unsupported
from .libmodel import SOPS, REBUILD, extremum, scal_cmp, elementwise, res_dt
from . import npmodel as N
from .npmodel import to_nd, scalar_or, reduce_, ret, tofloat, add, mul, ssum, ax_arg, nd, obj, solve_nd, dot_nd

sub = SOPS['Sub']
div = SOPS['Div']


def kth(k, xs):
    """the k-th smallest of the numbers"""
    xs = [tofloat(x) for x in xs]
    n = len(xs)
    if n == 1:
        return xs[0]
    if k == 0:
        return extremum('min', xs)
    if k == n - 1:
        return extremum('max', xs)

    def leaf(*ys):
        for y in ys:
            if isinstance(y, Opaque) or y is BOT:
                return y
        if any(y is NAN for y in ys):
            return NAN
        zs = sorted((num(y) for y in ys), key=lambda p: p.id)
        if all(z is zs[0] for z in zs):
            return zs[0]
        if all(z.const() is not None for z in zs):
            return sorted(zs, key=lambda z: z.const())[k]
        # a known order
        rank = []
        for z in zs:
            r = 0
            for w in zs:
                if w is z:
                    continue
                s = sign_of(padd(z, pscale(w, -1)))
                if s == '+':
                    r += 1
                elif s != '-':
                    r = None
                    break
            rank.append(r)
        if None not in rank and sorted(rank) == list(range(n)):
            return zs[rank.index(k)]
        sg = None
        ss = [sign_of(z) for z in zs]
        if all(s == '+' for s in ss):
            sg = '+'
        elif all(s in ('+', '0+', '0') for s in ss):
            sg = '0+'
        return apoly(mk_atom('app', 'kth', (P(k),) + tuple(zs), sign=sg))
    return lift(leaf, *xs)


REBUILD['kth'] = lambda k, *a: kth(int(num(k).const()), list(a))


def quantile(q, xs):
    """linear interpolation between the order statistics"""
    c = num(q).const() if not isinstance(q, DD) and num(q) is not None else None
    if c is None:
        raise Unsupported('quantile of a symbolic fraction')
    c = Q(c)
    if not xs:
        return NAN
    pos = c * (len(xs) - 1)
    lo = pos.numerator // pos.denominator
    w = pos - lo
    a = kth(lo, xs)
    return a if w == 0 else g_add(g_mul(const(1 - w), a), g_mul(const(w), kth(lo + 1, xs)))


def sorted_nd(a, axis):
    r = np.moveaxis(np.array(a, dtype=object, copy=True), axis, -1)
    for i in np.ndindex(*r.shape[:-1]):
        xs = list(r[i])
        for k in range(len(xs)):
            r[i + (k,)] = kth(k, xs)
    return np.moveaxis(r, -1, axis)


def arg_ext(name, xs):
    """index of the first largest (smallest) value"""
    if len(xs) > 12:
        raise Unsupported('argmax of many values')
    if any(isinstance(x, Opaque) for x in xs):
        return next(x for x in xs if isinstance(x, Opaque))
    best, at = tofloat(xs[0]), 0
    for i, x in enumerate(xs[1:], 1):
        x = tofloat(x)
        better = scal_cmp('Gt' if name == 'max' else 'Lt', x, best)
        at = ite(better, i, at)
        best = ite(better, x, best)
    return at


def order(xs):
    """the permutation that sorts the values (stable), gated on their comparisons"""
    n = len(xs)
    if n > 6 and not all(num(x) is not None and num(x).const() is not None for x in xs if not isinstance(x, DD)):
        raise Unsupported('argsort of many values')
    for x in xs:
        if isinstance(x, Opaque):
            raise Unsupported('argsort of unknown values')
    xs = [tofloat(x) for x in xs]
    rank = []
    for i in range(n):
        r = 0
        for j in range(n):
            if i != j:
                r = add(r, ite(scal_cmp('Lt' if j > i else 'LtE', xs[j], xs[i]), 1, 0))
        rank.append(r)
    out = []
    for k in range(n):
        at = n - 1
        for i in reversed(range(n)):
            at = ite(scal_cmp('Eq', rank[i], k), i, at)
        out.append(at)
    return out


def lsq(A, B):
    """least squares through the normal equations (full rank)"""
    n, m = A.shape
    At = A.T
    if n == m:
        return solve_nd(A, B)
    if n > m:
        return solve_nd(dot_nd(At, A), dot_nd(At, B))
    return dot_nd(At, solve_nd(dot_nd(A, At), B))


def polyval_nd(c, x):
    acc = ZERO
    for k in c:
        acc = g_add(g_mul(acc, tofloat(x)), tofloat(k))
    return acc


def install(self):
    E, X, H = self.ext, self.extattr, self.extmeth
    e = self.np_register

    def n(*names):
        return e(*['numpy.' + x for x in names])

    def first(I, v, axis):
        a, d = to_nd(I, v)
        if axis is None:
            return a.ravel(), d, -1
        return a, d, I.toint(axis)

    @n('sort')
    def np_sort(I, v, axis=-1, kind=None, **k):
        a, d, ax = first(I, v, axis)
        return I.mkarr(sorted_nd(a, ax), d)

    @n('partition')
    def _(I, v, kth_, axis=-1, **k):
        # the order inside the parts is not specified: the sorted array is one of them
        a, d, ax = first(I, v, axis)
        return I.mkarr(sorted_nd(a, ax), d)

    @n('argsort')
    def _(I, v, axis=-1, **k):
        a, d, ax = first(I, v, axis)
        r = np.empty(a.shape, dtype=object)
        for i in np.ndindex(*a.shape[1:]):
            r[(slice(None),) + i] = order(list(a[(slice(None),) + i]))
        return I.mkarr(np.moveaxis(r, 0, ax), 'i')

    @n('lexsort')
    def _(I, keys, axis=-1):
        ks = [to_nd(I, k)[0] for k in (list(I.iter_plain(keys)))]
        if any(k.ndim != 1 for k in ks):
            raise Unsupported('lexsort of other than vectors')
        m = len(ks[0])
        if m > 6:
            raise Unsupported('lexsort of many values')

        def before(i, j, kk, tie):
            if not kk:
                return tie
            a, b = tofloat(kk[-1][i]), tofloat(kk[-1][j])
            return g_or(scal_cmp('Lt', a, b), g_and(scal_cmp('Eq', a, b), before(i, j, kk[:-1], tie)))
        rank = []
        for i in range(m):
            r = 0
            for j in range(m):
                if i != j:
                    r = add(r, ite(before(j, i, ks, j < i), 1, 0))
            rank.append(r)
        out = np.empty(m, dtype=object)
        for k in range(m):
            at = m - 1
            for i in reversed(range(m)):
                at = ite(scal_cmp('Eq', rank[i], k), i, at)
            out[k] = at
        return I.mkarr(out, 'i')

    @n('argmax', 'nanargmax')
    def _(I, v, axis=None, out=None, keepdims=False):
        a, d = to_nd(I, v)
        if a.size == 0:
            return I.raise_b('ValueError', 'attempt to get argmax of an empty sequence')
        return scalar_or(I, reduce_(lambda xs: arg_ext('max', xs), a, ax_arg(I, axis), keepdims, 0), 'i')

    @n('argmin', 'nanargmin')
    def _(I, v, axis=None, out=None, keepdims=False):
        a, d = to_nd(I, v)
        if a.size == 0:
            return I.raise_b('ValueError', 'attempt to get argmin of an empty sequence')
        return scalar_or(I, reduce_(lambda xs: arg_ext('min', xs), a, ax_arg(I, axis), keepdims, 0), 'i')

    @n('median', 'nanmedian')
    def _(I, v, axis=None, out=None, overwrite_input=False, keepdims=False):
        a, d = to_nd(I, v)
        return ret(I, reduce_(lambda xs: quantile(const(Q(1, 2)), xs), a, ax_arg(I, axis), keepdims, NAN), 'f', out)

    def quant(scale):
        def f(I, v, q, axis=None, out=None, overwrite_input=False, method='linear', keepdims=False, **k):
            if method != 'linear' or k:
                raise Unsupported('quantile method')
            a, d = to_nd(I, v)
            qs, _ = to_nd(I, q)
            parts = []
            for i in np.ndindex(*qs.shape):
                c = div(qs[i], scale)
                parts.append(reduce_(lambda xs: quantile(c, xs), a, ax_arg(I, axis), keepdims, NAN))
            if qs.ndim == 0:
                return ret(I, parts[0], 'f', out)
            r = np.empty(qs.shape + parts[0].shape, dtype=object)
            for i, p in zip(np.ndindex(*qs.shape), parts):
                r[i] = p if p.ndim else p[()]
            return I.mkarr(r, 'f')
        return f
    n('quantile', 'nanquantile')(quant(1))
    n('percentile', 'nanpercentile')(quant(100))

    def var_(xs, ddof):
        m = div(ssum(xs), len(xs))
        return div(ssum([mul(sub(x, m), sub(x, m)) for x in xs]), len(xs) - ddof)

    @n('var', 'nanvar')
    def _(I, v, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
        a, d = to_nd(I, v)
        return ret(I, reduce_(lambda xs: tofloat(var_(xs, I.toint(ddof))), a, ax_arg(I, axis), keepdims, NAN), 'f', out)

    @n('std', 'nanstd')
    def _(I, v, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
        a, d = to_nd(I, v)
        return ret(I, reduce_(lambda xs: g_sqrt(tofloat(var_(xs, I.toint(ddof)))), a, ax_arg(I, axis), keepdims, NAN), 'f', out)

    @n('unique')
    def _(I, v, **k):
        a, d = to_nd(I, v)
        xs = list(a.ravel())
        if k or not all(isinstance(x, (int, bool)) or isinstance(x, Poly) and x.const() is not None for x in xs):
            raise Unsupported('unique of symbolic values')
        r = sorted({num(x).const(): x for x in xs}.items())
        o = np.empty(len(r), dtype=object)
        o[:] = [x for _, x in r]
        return I.mkarr(o, d)

    # ---- least squares and polynomials
    @e('numpy.linalg.lstsq', 'scipy.linalg.lstsq')
    def _(I, A, b, *a, **k):
        x, _ = to_nd(I, A)
        y, _ = to_nd(I, b)
        if x.ndim != 2 or y.shape[0] != x.shape[0]:
            return I.raise_b('numpy.linalg.LinAlgError', 'Incompatible dimensions')
        return (I.mkarr(lsq(x, y), 'f'), Opaque('residuals'), Opaque('rank'), Opaque('singular values'))

    @e('numpy.linalg.pinv', 'scipy.linalg.pinv')
    def _(I, A, *a, **k):
        x, _ = to_nd(I, A)
        if x.ndim != 2:
            raise Unsupported('pinv')
        eye = obj((x.shape[0],) * 2, ZERO)
        for i in range(x.shape[0]):
            eye[i, i] = ONE
        return I.mkarr(lsq(x, eye), 'f')

    def vander(x, m):
        V = np.empty((len(x), m), dtype=object)
        for i in range(len(x)):
            p = ONE
            for j in reversed(range(m)):
                V[i, j] = p
                p = g_mul(p, tofloat(x[i]))
        return V

    @n('vander')
    def _(I, x, N=None, increasing=False):
        a, d = to_nd(I, x)
        V = vander(a, len(a) if N is None else I.toint(N))
        return I.mkarr(V[:, ::-1] if increasing is True else V, d)

    @n('polyfit')
    def _(I, x, y, deg, rcond=None, full=False, w=None, cov=False):
        if full is not False or w is not None or cov is not False:
            raise Unsupported('polyfit')
        a, _ = to_nd(I, x)
        b, _ = to_nd(I, y)
        if a.shape[0] != b.shape[0]:
            return I.raise_b('TypeError', 'expected x and y to have same length')
        return I.mkarr(lsq(vander(a, I.toint(deg) + 1), b), 'f')

    @n('polyval')
    def _(I, p, x):
        c, _ = to_nd(I, p)
        return elementwise(I, lambda v: polyval_nd(list(c), v), (x,), 'f')

    @n('polyder')
    def _(I, p, m=1):
        c, d = to_nd(I, p)
        c = list(c)
        for _k in range(I.toint(m)):
            k = len(c) - 1
            c = [mul(v, k - i) for i, v in enumerate(c[:-1])]
        r = np.empty(len(c), dtype=object)
        r[:] = c
        return I.mkarr(r, d)

    @n('polyint')
    def _(I, p, m=1, k=None):
        if k is not None:
            raise Unsupported('polyint')
        c, d = to_nd(I, p)
        c = list(c)
        for _k in range(I.toint(m)):
            q = len(c)
            c = [div(v, q - i) for i, v in enumerate(c)] + [ZERO]
        r = np.empty(len(c), dtype=object)
        r[:] = c
        return I.mkarr(r, 'f')

    @n('gradient')
    def _(I, f, *sp, axis=None, edge_order=1):
        a, _ = to_nd(I, f)
        if a.ndim != 1 or len(sp) > 1 or I.toint(edge_order) != 1:
            raise Unsupported('gradient')
        m = len(a)
        if m < 2:
            return I.raise_b('ValueError', 'Shape of array too small to calculate a numerical gradient')
        v = [tofloat(x) for x in a]
        s = to_nd(I, sp[0])[0] if sp else nd(ONE)
        r = np.empty(m, dtype=object)
        if s.ndim == 0:
            h = tofloat(s[()])
            x = [g_mul(h, const(i)) for i in range(m)]
        else:
            x = [tofloat(t) for t in s]
            if len(x) != m:
                return I.raise_b('ValueError', 'when 1d, distances must match the length of the corresponding dimension')
        for i in range(m):
            if i in (0, m - 1):
                j = max(i, 1)
                r[i] = g_div(g_sub(v[j], v[j - 1]), g_sub(x[j], x[j - 1]))
            else:
                hd, hs = g_sub(x[i + 1], x[i]), g_sub(x[i], x[i - 1])
                t = g_add(g_mul(g_mul(hs, hs), v[i + 1]), g_mul(g_sub(g_mul(hd, hd), g_mul(hs, hs)), v[i]))
                r[i] = g_div(g_sub(t, g_mul(g_mul(hd, hd), v[i - 1])), g_mul(g_mul(hs, hd), g_add(hd, hs)))
        return I.mkarr(r, 'f')

    def conv(a, b):
        r = [0] * (len(a) + len(b) - 1)
        for i, x in enumerate(a):
            for j, y in enumerate(b):
                r[i + j] = add(r[i + j], mul(x, y))
        return r

    @n('convolve', 'polymul')
    def _(I, a, v, mode='full'):
        x, dx = to_nd(I, a)
        y, dy = to_nd(I, v)
        if x.ndim != 1 or y.ndim != 1:
            raise Unsupported('convolve')
        full = conv(list(x), list(y))
        big, small = max(len(x), len(y)), min(len(x), len(y))
        if mode == 'same':
            o = (small - 1) // 2
            full = full[o:o + big]
        elif mode == 'valid':
            full = full[small - 1:big]
        r = np.empty(len(full), dtype=object)
        r[:] = full
        return I.mkarr(r, res_dt('Mult', dx, dy))

    @n('ediff1d')
    def _(I, v):
        a, d = to_nd(I, v)
        a = a.ravel()
        r = np.empty(max(len(a) - 1, 0), dtype=object)
        r[:] = [sub(y, x) for x, y in zip(a, a[1:])]
        return I.mkarr(r, d)

    @n('kron')
    def _(I, a, b):
        x, dx = to_nd(I, a)
        y, dy = to_nd(I, b)
        if x.ndim != y.ndim or x.ndim not in (1, 2):
            raise Unsupported('kron')
        if x.ndim == 1:
            r = np.frompyfunc(mul, 2, 1)(x[:, None], y[None, :]).reshape(-1)
        else:
            r = np.frompyfunc(mul, 2, 1)(x[:, None, :, None], y[None, :, None, :]).reshape(x.shape[0] * y.shape[0], x.shape[1] * y.shape[1])
        return I.mkarr(r, res_dt('Mult', dx, dy))

    @n('cov')
    def _(I, m, **k):
        raise Unsupported('cov')

    @n('linalg.matrix_power')
    def _(I, A, p):
        a, d = to_nd(I, A)
        k = I.toint(p)
        if k < 1:
            raise Unsupported('matrix_power')
        r = a
        for _i in range(k - 1):
            r = dot_nd(r, a)
        return I.mkarr(r, d)

    def alias(new, old):
        f = E.get('numpy.' + old)
        if f is not None and 'numpy.' + new not in E:
            E['numpy.' + new] = f
    for new, old in (('linalg.matmul', 'matmul'), ('linalg.outer', 'outer'), ('linalg.tensordot', 'tensordot'), ('linalg.trace', 'trace'), ('linalg.diagonal', 'diagonal'),
                     ('linalg.vector_norm', 'linalg.norm'), ('cumulative_sum', 'cumsum'), ('cumulative_prod', 'cumprod'), ('nancumsum', 'cumsum'), ('nancumprod', 'cumprod'),
                     ('nanprod', 'prod'), ('pow', 'power'), ('permute_dims', 'transpose')):
        alias(new, old)

    @n('exp2')
    def _(I, x):
        return elementwise(I, lambda v: SOPS['Pow'](const(2), tofloat(v)), (x,), 'f')

    @n('heaviside')
    def _(I, x, h):
        return elementwise(I, lambda v, w: ite(scal_cmp('Lt', v, 0), ZERO, ite(scal_cmp('Gt', v, 0), ONE, tofloat(w))), (x, h), 'f')

    def lib1(f):
        return lambda I, x: elementwise(I, lambda v: f(tofloat(v)), (x,), 'f')
    one = lambda v: g_add(g_mul(v, v), ONE)
    e('numpy.arcsinh', 'numpy.asinh', 'math.asinh')(lib1(lambda v: g_log(g_add(v, g_sqrt(one(v))))))
    e('numpy.arccosh', 'numpy.acosh', 'math.acosh')(lib1(lambda v: g_log(g_add(v, g_sqrt(g_sub(g_mul(v, v), ONE))))))
    e('numpy.arctanh', 'numpy.atanh', 'math.atanh')(lib1(lambda v: g_mul(const(Q(1, 2)), g_log(g_div(g_add(ONE, v), g_sub(ONE, v))))))
    n('signbit')(lambda I, x: elementwise(I, lambda v: scal_cmp('Lt', v, 0), (x,), 'b'))

    @n('divmod')
    def _(I, a, b):
        return (I.binop('FloorDiv', a, b), I.binop('Mod', a, b))

    @n('modf')
    def _(I, x):
        w = E['numpy.trunc'](I, [x], {})
        return (I.binop('Sub', x, w), w)
    e('math.modf')(lambda I, x: (I.binop('Sub', x, E['numpy.trunc'](I, [x], {})), E['numpy.trunc'](I, [x], {})))

    @n('logspace')
    def _(I, start, stop, num=50, endpoint=True, base=10, dtype=None, axis=0):
        r = E['numpy.linspace'](I, [start, stop, num, endpoint], {})
        return elementwise(I, lambda v: SOPS['Pow'](tofloat(base), tofloat(v)), (r,), 'f')

    @n('geomspace')
    def _(I, start, stop, num=50, endpoint=True, dtype=None, axis=0):
        a, b = tofloat(start), tofloat(stop)
        r = E['numpy.linspace'](I, [0, 1, num, endpoint], {})
        return elementwise(I, lambda v: g_mul(a, SOPS['Pow'](g_div(b, a), tofloat(v))), (r,), 'f')

    # ---- searching
    @n('searchsorted')
    def np_searchsorted(I, a, v, side='left', sorter=None):
        if sorter is not None:
            raise Unsupported('searchsorted')
        x, _ = to_nd(I, a)
        op = 'Lt' if side == 'left' else 'LtE'
        return elementwise(I, lambda t: ssum([ite(scal_cmp(op, tofloat(q), tofloat(t)), 1, 0) for q in x]), (v,), 'i')

    @n('digitize')
    def _(I, x, bins, right=False):
        return np_searchsorted(I, bins, x, 'left' if right is True else 'right')

    @n('isin', 'in1d')
    def _(I, v, test, **k):
        if k:
            raise Unsupported('isin')
        t, _ = to_nd(I, test)
        t = list(t.ravel())

        def f(x):
            r = False
            for y in t:
                r = g_or(r, scal_cmp('Eq', x, y))
            return r
        return elementwise(I, f, (v,), 'b')

    # ---- shapes
    @n('broadcast_arrays')
    def _(I, *vs, **k):
        xs = [to_nd(I, v) for v in vs]
        sh = np.broadcast_shapes(*[a.shape for a, _ in xs])
        return tuple(I.mkarr(np.array(np.broadcast_to(a, sh), dtype=object, copy=True), d) for a, d in xs)
    n('broadcast_shapes')(lambda I, *s: tuple(np.broadcast_shapes(*[N.ints(I, x) for x in s])))

    @n('take_along_axis')
    def _(I, v, ix, axis=-1):
        a, d = to_nd(I, v)
        i, _ = to_nd(I, ix)
        if a.ndim != 1 or i.ndim != 1:
            raise Unsupported('take_along_axis')
        return I.getitem(v, ix)

    @n('diag_indices')
    def _(I, m, ndim=2):
        r = E['numpy.arange'](I, [m], {})
        return tuple(r for _k in range(I.toint(ndim)))

    @n('fromfunction')
    def _(I, f, shape, dtype=None, **k):
        sh = N.ints(I, shape)
        g = np.indices(sh)
        args = []
        for x in g:
            o = np.empty(x.shape, dtype=object)
            for i in np.ndindex(*x.shape):
                o[i] = const(int(x[i])) if dtype is None else int(x[i])
            args.append(I.mkarr(o, 'f' if dtype is None else 'i'))
        return I.call(f, args, k)

    @n('trim_zeros')
    def _(I, v, trim='fb'):
        raise Unsupported('trim_zeros')

    # ---- number types
    def finfo(I, *a, **k):
        return ExtObj('finfo', dict(eps=const(Q(1, 2 ** 52)), tiny=const(Q(1, 2 ** 1022)), smallest_normal=const(Q(1, 2 ** 1022)), resolution=const(Q(1, 10 ** 15)),
                                    max=const(Q(2 ** 1024 - 2 ** 971)), min=const(-Q(2 ** 1024 - 2 ** 971)), bits=64))
    n('finfo')(finfo)
    n('iinfo')(lambda I, *a, **k: ExtObj('finfo', dict(max=2 ** 63 - 1, min=-2 ** 63, bits=64)))
    for q in ('max', 'min', 'eps', 'epsilon', 'tiny'):
        X['sys.float_info.' + q] = {'max': const(Q(2 ** 1024 - 2 ** 971)), 'min': const(Q(1, 2 ** 1022)), 'eps': const(Q(1, 2 ** 52)), 'epsilon': const(Q(1, 2 ** 52)),
                                    'tiny': const(Q(1, 2 ** 1022))}[q]

    e('math.comb')(lambda I, a, b: __import__('math').comb(I.toint(a), I.toint(b)))
    e('math.factorial')(lambda I, a: __import__('math').factorial(I.toint(a)))
    e('math.gcd')(lambda I, a, b: __import__('math').gcd(I.toint(a), I.toint(b)))
    e('math.isqrt')(lambda I, a: __import__('math').isqrt(I.toint(a)))
    e('math.sumprod')(lambda I, p, q: ssum([mul(x, y) for x, y in zip(I.iter_plain(p), I.iter_plain(q))]))

    # ---- indices and construction
    def table(x, f=int):
        r = np.empty(x.shape, dtype=object)
        for i in np.ndindex(*x.shape):
            r[i] = f(x[i])
        return r

    @n('ix_')
    def _(I, *seqs):
        out = []
        for i, s in enumerate(seqs):
            a, d = to_nd(I, s)
            if d == 'b':
                a = table(np.nonzero(a.astype(bool))[0])
            out.append(I.mkarr(a.reshape((1,) * i + (-1,) + (1,) * (len(seqs) - 1 - i)), 'i'))
        return tuple(out)

    @n('tri')
    def _(I, N_, M=None, k=0, dtype=None):
        dt = 'f' if dtype is None else N.dtype_of(I, dtype)
        return I.mkarr(table(np.tri(I.toint(N_), None if M is None else I.toint(M), I.toint(k)), lambda v: I.conv_elem(int(v), dt)), dt)

    for nm in ('triu_indices', 'tril_indices'):
        n(nm)(lambda I, m, k=0, q=None, nm=nm: tuple(I.mkarr(table(x), 'i') for x in getattr(np, nm)(
            I.toint(m), I.toint(k), None if q is None else I.toint(q))))

    @n('diagflat')
    def _(I, v, k=0):
        a, d = to_nd(I, v)
        a, k = a.ravel(), I.toint(k)
        r = obj((len(a) + abs(k),) * 2, N.ZEROS[d])
        for i, x in enumerate(a):
            r[i + max(0, -k), i + max(0, k)] = x
        return I.mkarr(r, d)

    @n('unravel_index')
    def _(I, i, shape, order='C'):
        a, d = to_nd(I, i)
        r = np.unravel_index(np.vectorize(I.toint, otypes=[int])(a) if a.size else a.astype(int), N.ints(I, shape), order=order)
        return tuple(int(x) if np.ndim(x) == 0 else I.mkarr(table(x), 'i') for x in r)

    @n('ravel_multi_index')
    def _(I, m, dims, mode='raise', order='C'):
        r = np.ravel_multi_index([np.vectorize(I.toint, otypes=[int])(to_nd(I, x)[0]) for x in I.iter_plain(m)], N.ints(I, dims), order=order)
        return int(r) if np.ndim(r) == 0 else I.mkarr(table(r), 'i')

    @n('choose')
    def _(I, c, choices, out=None, mode='raise'):
        c, _ = to_nd(I, c)
        ch = [to_nd(I, x) for x in I.iter_plain(choices)]
        dt = 'f' if any(d == 'f' for _, d in ch) else ch[0][1]
        arrs = np.broadcast_arrays(c, *[x for x, _ in ch])
        r = np.empty(arrs[0].shape, dtype=object)
        for i in np.ndindex(*r.shape):
            r[i] = I.conv_elem(arrs[1 + I.toint(arrs[0][i])][i], dt)
        return ret(I, r, dt, out)

    @n('pad')
    def _(I, v, width, mode='constant', constant_values=0, **k):
        a, d = to_nd(I, v)
        w, _ = to_nd(I, width)
        w = np.broadcast_to(np.vectorize(I.toint, otypes=[int])(w), (a.ndim, 2))
        if k or mode not in ('constant', 'edge', 'wrap', 'reflect', 'symmetric'):
            raise Unsupported('pad')
        pos = np.pad(np.arange(a.size).reshape(a.shape), w, **(dict(constant_values=-1) if mode == 'constant' else dict(mode=mode)))
        cv = to_nd(I, constant_values)[0]
        if cv.size != 1:
            raise Unsupported('pad')
        fl = a.ravel()
        r = np.empty(pos.shape, dtype=object)
        for i in np.ndindex(*pos.shape):
            r[i] = fl[pos[i]] if pos[i] >= 0 else I.conv_elem(cv.ravel()[0], d)
        return I.mkarr(r, d)

    @n('block')
    def _(I, v):
        def depth(x):
            return 1 + depth(I.iter_plain(x)[0]) if isinstance(x, PyList) else 0
        top = depth(v)

        def go(x, level):
            if not isinstance(x, PyList):
                a, d = to_nd(I, x)
                return a, d
            parts = [go(y, level + 1) for y in I.iter_plain(x)]
            nd_ = max([p.ndim for p, _ in parts] + [top])
            ps = [p.reshape((1,) * (nd_ - p.ndim) + p.shape) for p, _ in parts]
            return np.concatenate(ps, axis=-(top - level)), 'f' if any(d == 'f' for _, d in parts) else parts[0][1]
        a, d = go(v, 0)
        if d == 'f':
            a = np.frompyfunc(lambda x: I.conv_elem(x, 'f'), 1, 1)(a)
        return I.mkarr(a, d)

    def grid(sparse):
        def f(I, o, a, k):
            ks = a[0] if isinstance(a[0], tuple) else (a[0],)
            if not all(isinstance(s, SliceVal) for s in ks):
                raise Unsupported('mgrid')
            axes = []
            for s in ks:
                lo = 0 if s.lo is None else s.lo
                c = s.st
                axes.append(I.call_ext('numpy.arange', [lo, s.hi] + ([c] if c is not None else []), {}))
            if sparse:
                return tuple(I.mkarr(x.a.reshape((1,) * i + (-1,) + (1,) * (len(axes) - 1 - i)), x.dt) for i, x in enumerate(axes)) if len(axes) > 1 else axes[0]
            if len(axes) == 1:
                return axes[0]
            d = 'f' if any(x.dt == 'f' for x in axes) else 'i'
            return I.mkarr(np.array(list(np.meshgrid(*[x.a for x in axes], indexing='ij')), dtype=object), d)
        return f
    H[('npgrid', '__getitem__')] = grid(False)
    H[('npogrid', '__getitem__')] = grid(True)
    X['numpy.mgrid'] = lambda I: ExtObj('npgrid')
    X['numpy.ogrid'] = lambda I: ExtObj('npogrid')

    def joiner(col):
        def f(I, o, a, k):
            ks = list(a[0]) if isinstance(a[0], tuple) else [a[0]]
            if any(isinstance(x, str) for x in ks):
                raise Unsupported('r_ with a directive')
            parts = []
            for x in ks:
                if isinstance(x, SliceVal):
                    x = I.call_ext('numpy.arange', [0 if x.lo is None else x.lo, x.hi] + ([x.st] if x.st is not None else []), {})
                p, d = to_nd(I, x)
                if p.ndim == 0:
                    p = p.reshape(1)
                if col and p.ndim == 1:
                    p = p.reshape(-1, 1)
                parts.append(I.mkarr(p, d))
            return I.call_ext('numpy.concatenate', [I.mklist(parts)], dict(axis=-1 if col else 0))
        return f
    H[('npr_', '__getitem__')] = joiner(False)
    H[('npc_', '__getitem__')] = joiner(True)
    X['numpy.r_'] = lambda I: ExtObj('npr_')
    X['numpy.c_'] = lambda I: ExtObj('npc_')

    for nm, op in (('add', 'Add'), ('subtract', 'Sub'), ('divide', 'Div')):
        def outer(I, a, b, op=op, **k):
            x, y = N.asarray(I, a), N.asarray(I, b)
            return I.binop(op, I.mkarr(x.a.reshape(x.a.shape + (1,) * y.a.ndim), x.dt), y)
        n(nm + '.outer')(outer)
    for nm in ('maximum', 'minimum', 'fmax', 'fmin'):
        @n(nm + '.reduce')
        def _(I, v, axis=0, nm=nm, **k):
            return E['numpy.max' if 'max' in nm else 'numpy.min'](I, [v], dict(axis=axis, **k))
    for nm, q in (('logical_and', 'all'), ('logical_or', 'any')):
        @n(nm + '.reduce')
        def _(I, v, axis=0, q=q, **k):
            return E['numpy.' + q](I, [v], dict(axis=axis, **k))

    # ---- functions that write into their argument
    @n('put')
    def _(I, a, ind, v, mode='raise'):
        ii, vv = to_nd(I, ind)[0].ravel(), to_nd(I, v)[0].ravel()
        for q, i in enumerate(ii):
            I.store_arr(a, np.unravel_index(I.toint(i), a.a.shape), vv[q % len(vv)])

    @n('put_along_axis')
    def _(I, a, ind, v, axis):
        ii = np.vectorize(I.toint, otypes=[int])(to_nd(I, ind)[0])
        vv = np.broadcast_to(to_nd(I, v)[0], ii.shape)
        for q in np.ndindex(*ii.shape):
            i = list(q)
            i[I.toint(axis)] = ii[q]
            I.store_arr(a, tuple(i), vv[q])

    @n('putmask')
    def _(I, a, mask, v):
        vv = to_nd(I, v)[0].ravel()
        pc0 = I.pc
        for q, (i, m) in enumerate(zip(np.ndindex(*a.a.shape), to_nd(I, mask)[0].ravel())):
            I.pc = g_and(pc0, I.truth(m))
            if I.pc is not False:
                I.store_arr(a, i, vv[q % len(vv)])
        I.pc = pc0

    @n('place')
    def _(I, a, mask, v):
        m = I.mkarr(to_nd(I, mask)[0], 'b')
        vv = to_nd(I, v)[0].ravel()
        if len(vv) != 1 and I.symbolic_mask(m):
            I.store_arr(a, Ellipsis, Opaque('place with a symbolic mask'))
            return
        k = 0
        for i, t in zip(np.ndindex(*a.a.shape), m.a.ravel()):
            pc0 = I.pc
            I.pc = g_and(pc0, I.truth(t))
            if I.pc is not False:
                I.store_arr(a, i, vv[k % len(vv)])
                k += 1
            I.pc = pc0

    for nm, op in (('add', 'Add'), ('subtract', 'Sub'), ('multiply', 'Mult'), ('divide', 'Div')):
        @n(nm + '.at')
        def _(I, a, ind, v=None, op=op):
            pos = np.arange(a.a.size).reshape(a.a.shape)[I.npindex(ind if isinstance(ind, tuple) else N.asarray(I, ind) if isinstance(ind, PyList) else ind)]
            vv = np.broadcast_to(to_nd(I, v)[0], np.shape(pos))
            for q in np.ndindex(*np.shape(pos)):
                i = np.unravel_index(pos[q] if np.ndim(pos) else pos, a.a.shape)
                I.store_arr(a, i, I.binop(op, a.a[i], vv[q] if np.ndim(pos) else vv[()]))

    def scramble(I, a, *r, **k):
        I.ev('impure', fn='numpy.random.shuffle')
        if isinstance(a, Arr):
            I.store_arr(a, Ellipsis, Opaque('random order'))
    e('numpy.random.shuffle')(scramble)
