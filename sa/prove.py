"""Deciding equality and sign obligations between value numbers.

An obligation is discharged when both sides have the same normal form on every feasible combination of conditions
(``proved``).  Where the normal forms differ, the two value graphs are compared by random interpretation (polynomial
identity testing on the graphs, 40 digits): a point at which they differ is a refutation, agreement at all points is
recorded separately (``agree``).  Nothing of the analysed program is executed.
"""
import hashlib
import random
import time
from fractions import Fraction as Q

import mpmath
from mpmath import mpf

from .terms import *
from .terms import ATOMS, _lin, _linear_atoms, cofd

mpmath.mp.dps = 45


class Undefined(Exception):
    pass


# ---- numeric interpretation of value numbers ------------------------------------------------------------------------
def _h(*xs):
    return int.from_bytes(hashlib.sha256(repr(xs).encode()).digest()[:8], 'big')


def _hf(*xs):
    return mpf(_h(*xs)) / mpf(2 ** 64)


def _smooth(name, vals):
    """a fixed generic function: same arguments, same value; different arguments, different value"""
    t = _hf(name) * 7
    flat = []

    def go(v):
        if isinstance(v, tuple):
            flat.append(mpf(len(v)))
            for x in v:
                go(x)
        elif isinstance(v, (str, type(None))):
            flat.append(_hf('s', v) * 3)
        elif v is True or v is False:
            flat.append(mpf(1 if v else 0))
        else:
            flat.append(v)
    for v in vals:
        go(v)
    for i, v in enumerate(flat):
        c = _hf(name, i)
        t = t + (c + mpf('0.3')) * v
    u = mpf(0)
    for i, v in enumerate(flat):
        u = u + mpmath.cos((_hf(name, i, 'b') + mpf('0.5')) * v + i)
    return mpmath.sin(t) + mpf('0.37') * u


class Env:
    def __init__(self, rnd, fixed=None):
        self.rnd = rnd
        self.val = {}
        self.memo = {}
        self.pm = {}
        if fixed:
            self.val.update(fixed)

    def sym(self, a):
        v = self.val.get(a.id)
        if v is None:
            v = self.val[a.id] = self.draw(a)
        return v

    def draw(self, a):
        inf = a.info
        r = self.rnd
        if a.args[0] == 'pi':
            return mpmath.pi
        if inf.get('rng'):
            lo, hi = inf['rng']
            return mpf(lo) + (mpf(hi) - mpf(lo)) * mpf(r.random())
        lo, hi = inf.get('lo'), inf.get('hi')
        if inf.get('int'):
            l = int(self.poly(lo)) if lo is not None else (1 if inf.get('sign') == '+' else 0 if inf.get('sign') else -3)
            h = int(self.poly(hi)) if hi is not None else l + 3
            if h < l:
                raise Undefined('empty range')
            return mpf(r.randint(l, h))
        if lo is not None or hi is not None:
            l = self.poly(lo) if lo is not None else self.poly(hi) - 3
            h = self.poly(hi) if hi is not None else l + 3
            return l + (h - l) * mpf(r.random())
        s = inf.get('sign')
        if s in ('+', '0+'):
            return mpf('0.3') + mpf(r.random()) * mpf('2.5')
        if s in ('-', '0-'):
            return -(mpf('0.3') + mpf(r.random()) * mpf('2.5'))
        return (mpf(r.random()) - mpf('0.5')) * 5

    def poly(self, p):
        r = self.pm.get(p.id)
        if r is None:
            r = mpf(0)
            for m, c in p.terms.items():
                t = mpf(c.numerator) / c.denominator if isinstance(c, Q) else mpf(c)
                for aid, e in m:
                    b = self.atom(ATOMS[aid])
                    if e == 1:
                        t = t * b
                    elif isinstance(e, int) or e.denominator == 1:
                        if e < 0 and abs(b) < mpf('1e-25'):
                            raise Undefined('division by zero')
                        t = t * b ** int(e)
                    else:
                        if b < 0 and b > mpf('-1e-25'):
                            b = mpf(0)
                        if b < 0:
                            raise Undefined('root of a negative number')
                        if e < 0 and b < mpf('1e-25'):
                            raise Undefined('division by zero')
                        t = t * b ** (mpf(e.numerator) / e.denominator)
                r = r + t
            self.pm[p.id] = r
        return r

    def atom(self, a):
        r = self.memo.get(a.id)
        if r is None:
            r = self.atom0(a)
            self.memo[a.id] = r
        return r

    def any(self, x):
        if isinstance(x, Poly):
            return self.poly(x)
        if isinstance(x, DD):
            return self.dd(x)
        if isinstance(x, tuple):
            return tuple(self.any(y) for y in x)
        if isinstance(x, bool) or x is None or isinstance(x, str):
            return x
        if isinstance(x, (int, Q)):
            return mpf(x.numerator) / x.denominator
        if isinstance(x, (Opaque,)) or x is BOT or x is NAN:
            raise Undefined(repr(x))
        return 'obj%d' % id(x)

    def dd(self, g):
        while isinstance(g, DD):
            c = g.c
            if c.kind == 's':
                v = self.any(c.arg)
                if not isinstance(v, mpf):
                    raise Undefined('sign of non-number')
                i = 1 if abs(v) < mpf('1e-25') else (0 if v < 0 else 2)
                g = g.br[i]
            else:
                g = g.br[1 if self.pred(c.arg) else 0]
        return self.any(g) if not isinstance(g, (bool,)) else g

    def pred(self, a):
        v = self.memo.get(('p', a.id))
        if v is None:
            if a.kind == 'sym':
                v = self.rnd.random() < 0.5
            else:
                args = [self.any(x) for x in a.args[1]]
                f = PREDS.get(a.args[0])
                v = f(self, *args) if f else bool(_smooth('pred:' + a.args[0], args) > 0)
            self.memo[('p', a.id)] = v
        return v

    def atom0(self, a):
        k = a.kind
        if k == 'sym':
            return self.sym(a)
        if k == 'poly':
            return self.any(a.args[0])
        if k == 'sin':
            return mpmath.sin(self.any(a.args[0]))
        if k == 'cos':
            return mpmath.cos(self.any(a.args[0]))
        if k == 'exp':
            v = self.any(a.args[0])
            if v > 60:
                raise Undefined('overflow')
            return mpmath.exp(v)
        if k == 'app':
            name = a.args[0]
            args = [self.any(x) for x in a.args[1]]
            f = FUNCS.get(name)
            if f is not None:
                return f(self, *args)
            return _smooth(name, args)
        raise Undefined(k)


def _f_asin(env, x):
    if abs(x) > 1:
        raise Undefined('asin')
    return mpmath.asin(x)


def _f_acos(env, x):
    if abs(x) > 1:
        raise Undefined('acos')
    return mpmath.acos(x)


def _f_log(env, x):
    if x <= 0:
        raise Undefined('log')
    return mpmath.log(x)


def _f_solve(env, i, A, b):
    n = len(b)
    key = ('solve', repr(A), repr(b))
    r = env.memo.get(key)
    if r is None:
        M = mpmath.matrix(n, n)
        for p in range(n):
            for q in range(n):
                M[p, q] = A[p][q]
        try:
            x = mpmath.lu_solve(M, mpmath.matrix(list(b)))
        except ZeroDivisionError:
            raise Undefined('singular')
        r = env.memo[key] = [x[p] for p in range(n)]
    return r[int(i)]


def _pow(env, x, y):
    if x <= 0:
        raise Undefined('pow')
    return x ** y


def _fdivf(env, a, b):
    if b == 0:
        raise Undefined('div')
    return mpmath.floor(a / b)


FUNCS = {'asin': _f_asin, 'acos': _f_acos, 'atan': lambda e, x: mpmath.atan(x),
         'atan2': lambda e, y, x: mpmath.atan2(y, x), 'log': _f_log, '*': lambda e, a, b: a * b,
         'fdiv': _fdivf, 'mod': lambda e, a, b: a - b * _fdivf(e, a, b), 'solve': _f_solve,
         'trunc': lambda e, x: mpmath.floor(x) if x >= 0 else mpmath.ceil(x),
         'floor': lambda e, x: mpmath.floor(x), 'ceil': lambda e, x: mpmath.ceil(x),
         'round': lambda e, x, *n: mpmath.nint(x) if not n else mpmath.nint(x * mpf(10) ** n[0]) / mpf(10) ** n[0],
         'tan': lambda e, x: mpmath.tan(x), 'sinh': lambda e, x: mpmath.sinh(x), 'cosh': lambda e, x: mpmath.cosh(x),
         'tanh': lambda e, x: mpmath.tanh(x), 'cbrt': lambda e, x: mpmath.cbrt(x) if x >= 0 else -mpmath.cbrt(-x)}


def _nodes(xp):
    for p, q in zip(xp, xp[1:]):
        if not p < q:
            raise Undefined('girth nodes not increasing')


def _f_hat(env, x, xp, k):
    k = int(k)
    _nodes(xp)
    n = len(xp)
    if x <= xp[0]:
        return mpf(1 if k == 0 else 0)
    if x >= xp[-1]:
        return mpf(1 if k == n - 1 else 0)
    for j in range(n - 1):
        if xp[j] <= x <= xp[j + 1]:
            t = (x - xp[j]) / (xp[j + 1] - xp[j])
            return 1 - t if k == j else t if k == j + 1 else mpf(0)
    raise Undefined('hat')


def _f_hatx(env, x, xp, k):
    k = int(k)
    _nodes(xp)
    n = len(xp)
    j = 0
    while j < n - 2 and x > xp[j + 1]:
        j += 1
    t = (x - xp[j]) / (xp[j + 1] - xp[j])
    return 1 - t if k == j else t if k == j + 1 else mpf(0)


def _spl_coef(env, xp, k):
    key = ('spl', repr(xp), k)
    r = env.memo.get(key)
    if r is None:
        n = len(xp)
        if n < 4:
            raise Undefined('too few nodes')
        y = [mpf(1 if i == k else 0) for i in range(n)]
        h = [xp[i + 1] - xp[i] for i in range(n - 1)]
        A = mpmath.matrix(n, n)
        b = mpmath.matrix(n, 1)
        A[0, 0], A[0, 1], A[0, 2] = h[1], -(h[0] + h[1]), h[0]           # not-a-knot
        A[n - 1, n - 3], A[n - 1, n - 2], A[n - 1, n - 1] = h[n - 2], -(h[n - 3] + h[n - 2]), h[n - 3]
        for i in range(1, n - 1):
            A[i, i - 1], A[i, i], A[i, i + 1] = h[i - 1], 2 * (h[i - 1] + h[i]), h[i]
            b[i] = 6 * ((y[i + 1] - y[i]) / h[i] - (y[i] - y[i - 1]) / h[i - 1])
        M = mpmath.lu_solve(A, b)
        r = env.memo[key] = (y, [M[i] for i in range(n)], h)
    return r


def _f_spl(env, x, xp, k):
    _nodes(xp)
    y, M, h = _spl_coef(env, xp, int(k))
    n = len(xp)
    j = 0
    while j < n - 2 and x > xp[j + 1]:
        j += 1
    a, b = xp[j + 1] - x, x - xp[j]
    return (M[j] * a ** 3 + M[j + 1] * b ** 3) / (6 * h[j]) + (y[j] / h[j] - M[j] * h[j] / 6) * a + \
        (y[j + 1] / h[j] - M[j + 1] * h[j] / 6) * b


CORE = mpf('1e-8')


def _f_vl(env, i, p, a, b):
    """Biot-Savart field of the unit segment a->b at p (zero in the core)"""
    r0 = [b[j] - a[j] for j in range(3)]
    r1 = [p[j] - a[j] for j in range(3)]
    r2 = [p[j] - b[j] for j in range(3)]
    c = [r1[1] * r2[2] - r1[2] * r2[1], r1[2] * r2[0] - r1[0] * r2[2], r1[0] * r2[1] - r1[1] * r2[0]]
    n1 = mpmath.sqrt(sum(t * t for t in r1))
    n2 = mpmath.sqrt(sum(t * t for t in r2))
    c2 = sum(t * t for t in c)
    if n1 < CORE or n2 < CORE or c2 < CORE:
        return mpf(0)
    f = sum(r0[j] * (r1[j] / n1 - r2[j] / n2) for j in range(3)) / c2 / (4 * mpmath.pi)
    return c[int(i)] * f


def _f_vi(env, i, p, a, d):
    """field of the unit semi-infinite filament from a in the direction d"""
    n = mpmath.sqrt(sum(t * t for t in d))
    if n == 0:
        raise Undefined('no direction')
    u = [t / n for t in d]
    r = [p[j] - a[j] for j in range(3)]
    nr = mpmath.sqrt(sum(t * t for t in r))
    c = [u[1] * r[2] - u[2] * r[1], u[2] * r[0] - u[0] * r[2], u[0] * r[1] - u[1] * r[0]]
    den = nr * (nr - sum(u[j] * r[j] for j in range(3)))
    if den == 0:
        raise Undefined('on the filament')
    return c[int(i)] / den / (4 * mpmath.pi)


FUNCS.update({'let': lambda e, x: x, 'hat': _f_hat, 'hatx': _f_hatx, 'spl:3': _f_spl, 'VL': _f_vl, 'VI': _f_vi,
              'kth': lambda e, k, *a: sorted(a)[int(k)], 'max': lambda e, *a: max(a), 'min': lambda e, *a: min(a)})
PREDS = {'isnan': lambda e, x: False, 'isinf': lambda e, x: False}


# ---- obligations ----------------------------------------------------------------------------------------------------
class Verdict:
    def __init__(self, kind, paths=0, detail='', witness=None):
        self.kind = kind           # proved / agree / refuted / unknown
        self.paths = paths
        self.detail = detail
        self.witness = witness

    def __repr__(self):
        return '%s(%d) %s' % (self.kind, self.paths, self.detail)


RANK = {'proved': 0, 'agree': 1, 'unknown': 2, 'refuted': 3}


def worst(vs):
    r = Verdict('proved')
    n = 0
    for v in vs:
        n += v.paths
        if RANK[v.kind] > RANK[r.kind]:
            r = v
    return Verdict(r.kind, n, r.detail, r.witness)


def clear_denominators(p):
    """multiply by a product of positive-exponent atoms until no negative exponents remain (None if too large)"""
    for _ in range(6):
        mins = {}
        for m in p.terms:
            for aid, e in m:
                if e < 0:
                    mins[aid] = min(mins.get(aid, 0), e)
        if not mins:
            return p
        # only one atom at a time, innermost first
        aid = max(mins)
        e = mins[aid]
        f = mkp({((aid, -e),): 1}) if ATOMS[aid].kind != 'poly' else None
        q = ZERO
        for m, c in p.terms.items():
            d = dict(m)
            d[aid] = d.get(aid, 0) - e
            v = d[aid]
            v = int(v) if not isinstance(v, int) and v.denominator == 1 else v
            if v == 0:
                del d[aid]
            else:
                d[aid] = v
            base = mkp({tuple(sorted((k, x) for k, x in d.items() if k != aid)): c})
            if v:
                a = ATOMS[aid]
                if a.kind == 'poly' and v >= 1:
                    k = int(v // 1)
                    rest = v - k
                    t = p_ipow(a.args[0], k)
                    if rest:
                        t = pmul(t, mkp({((aid, rest),): 1}))
                    base = pmul(base, t)
                else:
                    base = pmul(base, mkp({((aid, v),): 1}))
            q = padd(q, base)
            if len(q.terms) > 4000:
                return None
        p = q
    return p


_zero_memo = {}


def is_zero(p):
    if not p.terms:
        return True
    if len(p.terms) == 1:
        return False
    r = _zero_memo.get(p.id)
    if r is None:
        r = False
        if len(p.terms) <= 600:
            q = clear_denominators(p)
            r = q is not None and not q.terms
        _zero_memo[p.id] = r
    return r


def solve_zero(p):
    """p = 0  ->  (symbol atom, expression) when p is linear in a plain symbol with constant coefficient"""
    best = None
    for a in _linear_atoms(p):
        if a.kind != 'sym' or a is PI:
            continue
        co, rest = _lin(p, a)
        if co is None or not co.terms:
            continue
        c = co.const()
        if c is None:
            continue
        e = pscale(rest, -Q(1) / c)
        if best is None or a.id > best[0].id:
            best = (a, e)
    return best


class Prover:
    """one per check; counts what it did"""

    def __init__(self, seed=1, points=3, tries=40):
        self.rnd = random.Random(seed)
        self.points = points
        self.tries = tries
        self.count = {'proved': 0, 'agree': 0, 'unknown': 0, 'refuted': 0}
        self.maxpaths = 3000
        self.seconds = 40       # per comparison
        self.reached = 0        # alternatives actually compared (not infeasible) by the last call of equal

    # sample environments in which the path holds and the assumption is true
    def samples(self, path, subs, assume, n, extra=()):
        got = 0
        for t in range(self.tries * n):
            env = Env(random.Random(self.rnd.random()))
            try:
                ok = True
                for c, i in path:
                    if c.kind == 'b' and c.arg.kind == 'sym':
                        env.memo[('p', c.arg.id)] = i == 1
                self.force(env, assume)
                for rep in range(6 if t % 2 else 1):
                    ok = True
                    for c, i in path:
                        if c.kind == 's':
                            v = env.any(c.arg)
                            s = 1 if abs(v) < mpf('1e-25') else (0 if v < 0 else 2)
                        else:
                            s = 1 if env.pred(c.arg) else 0
                        if s != i:
                            ok = False
                            if c.kind == 's' and t % 2 and isinstance(c.arg, Poly):
                                env = self.adjust(env, c.arg, i)
                            if env is None:
                                break
                    if ok or env is None:
                        break
                if env is None:
                    continue
                if ok and assume is not True:
                    ok = env.dd(assume) is True
                if not ok:
                    continue
                yield env
                got += 1
                if got >= n:
                    return
            except (Undefined, ZeroDivisionError, OverflowError, ValueError, TypeError):
                continue

    def force(self, env, g):
        """choose the free predicates so that the assumption can hold"""
        while isinstance(g, DD):
            c = g.c
            if c.kind == 's':
                v = env.any(c.arg)
                g = g.br[1 if abs(v) < mpf('1e-25') else (0 if v < 0 else 2)]
            elif c.arg.kind == 'sym' and env.memo.get(('p', c.arg.id)) is None:
                ch = [i for i in (0, 1) if g.br[i] is not False]
                i = ch[0] if len(ch) == 1 else int(env.rnd.random() < 0.5)
                env.memo[('p', c.arg.id)] = i == 1
                g = g.br[i]
            else:
                g = g.br[1 if env.pred(c.arg) else 0]

    def adjust(self, env, p, i):
        """move one symbol on which p depends so that p gets the wanted sign (the 'adjust' of random interpretation)"""
        ats = [ATOMS[aid] for aid in {aid for m in p.terms for aid, e in m}]
        lin = [a for a in _linear_atoms(p) if a.kind == 'sym' and a is not PI]
        self.rnd.shuffle(lin)
        for a in lin:
            co, rest = _lin(p, a)
            if co is None:
                continue
            try:
                c, r = env.poly(co), env.poly(rest)
            except (Undefined, ZeroDivisionError):
                continue
            if abs(c) < mpf('1e-20'):
                continue
            want = mpf(0) if i == 1 else (mpf('0.05') + self.rnd.random() * 2) * (-1 if i == 0 else 1)
            v = (want - r) / c
            if not self.admissible(env, a, v):
                continue
            return self.moved(env, {a.id: v})
        # non-linear: scale a symbol
        syms = [ATOMS[k] for k in list(env.val) if ATOMS[k].kind == 'sym' and ATOMS[k] is not PI]
        if not syms:
            return None
        a = self.rnd.choice(syms)
        v = env.val[a.id] * self.rnd.choice([mpf('0.01'), mpf('0.1'), mpf('-0.5'), mpf(-1), mpf(3), mpf(10), mpf(40)])
        if a.info.get('int'):
            v = mpmath.nint(v)
        if not self.admissible(env, a, v):
            return None
        return self.moved(env, {a.id: v})

    def admissible(self, env, a, v):
        inf = a.info
        if inf.get('int') and v != mpmath.nint(v):
            return False
        s = inf.get('sign')
        if (s == '+' and v <= 0) or (s == '-' and v >= 0) or (s == '0+' and v < 0) or (s == '0-' and v > 0):
            return False
        lo, hi = inf.get('lo'), inf.get('hi')
        if lo is not None and v < env.poly(lo) or hi is not None and v > env.poly(hi):
            return False
        if inf.get('rng') and not (inf['rng'][0] <= v <= inf['rng'][1]):
            return False
        return True

    def moved(self, env, mp):
        val = {k: v for k, v in env.val.items()}
        val.update(mp)
        e = Env(env.rnd, val)
        for k, v in env.memo.items():
            if isinstance(k, tuple) and k[0] == 'p' and ATOMS[k[1]].kind == 'sym':
                e.memo[k] = v
        return e

    def leaf(self, a, b, path, subs, assume):
        if same(a, b):
            self.reached += 1
            return Verdict('proved', 1)
        if a is BOT or b is BOT:
            return Verdict('proved', 0)
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            o = a if isinstance(a, Opaque) else b
            return Verdict('unknown', 1, str(o))
        pa, pb = num(a) if not isinstance(a, bool) or not isinstance(b, bool) else None, \
            num(b) if not isinstance(b, bool) or not isinstance(a, bool) else None
        if pa is not None and pb is not None:
            d = padd(pa, pscale(pb, -1))
            if is_zero(d):
                self.reached += 1
                return Verdict('proved', 1)
            n = 0
            for env in self.samples(path, subs, assume, self.points):
                try:
                    va, vb = env.poly(pa), env.poly(pb)
                except (Undefined, ZeroDivisionError, OverflowError, ValueError, TypeError):
                    continue
                n += 1
                if abs(va - vb) > mpf('1e-13') * (1 + abs(va) + abs(vb)):
                    return Verdict('refuted', 1, 'is %s, expected %s' % (show(pa, 300), show(pb, 300)),
                                   self.witness(env, va, vb, path))
            if n == 0:
                return Verdict('unknown' if self.plausible(path) else 'agree', 1, 'no sample point satisfies the path')
            self.reached += 1
            return Verdict('agree', 1)
        if a == b:
            self.reached += 1
            return Verdict('proved', 1)
        for env in self.samples(path, subs, assume, 1):
            return Verdict('refuted', 1, 'is %s, expected %s' % (show(a, 200), show(b, 200)), self.witness(env, a, b, path))
        return Verdict('agree', 1, 'infeasible path')

    def plausible(self, path):
        return False

    def witness(self, env, va, vb, path):
        w = {}
        for aid, v in list(env.val.items())[:40]:
            w[ATOMS[aid].args[0]] = mpmath.nstr(v, 6)
        f = lambda v: mpmath.nstr(v, 12) if isinstance(v, mpf) else str(v)
        return dict(point=w, got=f(va), expected=f(vb))

    def equal(self, a, b, assume=True):
        """decide a = b (gated numbers, booleans, strings, objects) wherever assume holds"""
        self.reached = 0
        if not isinstance(a, DD) and not isinstance(b, DD):
            v = self.leaf(a, b, [], {}, assume)
        elif a is b:
            self.reached = 1
            v = Verdict('proved', 1)
        else:
            if assume is not True:
                a, b = restrict(a, assume), restrict(b, assume)
            self._left = self.maxpaths
            self._until = time.time() + self.seconds
            memo = {}
            # values that differ at random points need no path by path comparison
            v = self.random_only(a, b, [], {}, assume, 2)
            if v.kind != 'refuted':
                self.reached = 0
                v = self.walk(a, b, [], {}, assume, memo)
        self.count[v.kind] += 1
        return v

    def walk(self, a, b, path, subs, assume, memo):
        if a is b or a is BOT or b is BOT or (not isinstance(a, DD) and not isinstance(b, DD)):
            return self.leaf(a, b, path, subs, assume)
        if not subs:
            k = (id(a) if not isinstance(a, (DD, Poly)) else (type(a), a.id), id(b) if not isinstance(b, (DD, Poly)) else (type(b), b.id))
            if k in memo and memo[k].kind == 'proved':
                return memo[k]
        self._left -= 1
        if self._left < 0:
            return self.random_only(a, b, path, subs, assume)
        if time.time() > self._until:
            return Verdict('unknown', 1, 'too many alternatives to compare one by one')
        c = None
        for g in (a, b):
            if isinstance(g, DD) and (c is None or g.c.id < c.id):
                c = g.c
        vs = []
        for i in range(c.n):
            ai, bi = cofd(a, c, i), cofd(b, c, i)
            p2 = path + [(c, i)]
            if c.kind == 's' and i == 1 and isinstance(c.arg, Poly):
                sv = solve_zero(c.arg)
                if sv is not None:
                    mp = {sv[0].id: sv[1]}
                    ai, bi = subst(ai, mp), subst(bi, mp)
                    asm = subst(assume, mp) if isinstance(assume, DD) else assume
                    if asm is False:
                        continue
                    p2 = []
                    dead = False
                    for cc, ii in path:
                        g = subst(mk_node(cc, [x == ii for x in range(cc.n)]), mp)
                        if g is False:
                            dead = True
                            break
                        if isinstance(g, DD) and g.c.n == cc.n:
                            for x in range(g.c.n):
                                if g.br[x] is True:
                                    p2.append((g.c, x))
                    if dead:
                        continue
                    vs.append(self.walk(ai, bi, p2, dict(subs, **{sv[0].args[0]: sv[1]}), asm, {}))
                    continue
            v = self.walk(ai, bi, p2, subs, assume, memo)
            vs.append(v)
            if v.kind == 'refuted':
                break
        v = worst(vs)
        if not subs and v.kind == 'proved':
            memo[k] = v
        return v

    def random_only(self, a, b, path, subs, assume, points=None):
        n = 0
        for env in self.samples(path, subs, assume, points or self.points):
            try:
                va, vb = env.any(a), env.any(b)
            except (Undefined, ZeroDivisionError, OverflowError, ValueError, TypeError):
                continue
            n += 1
            if isinstance(va, mpf) and isinstance(vb, mpf):
                bad = abs(va - vb) > mpf('1e-13') * (1 + abs(va) + abs(vb))
            else:
                bad = va != vb
            if bad:
                return Verdict('refuted', 1, 'is %s, expected %s' % (show(self.at(env, a), 300), show(self.at(env, b), 300)), self.witness(env, va, vb, path))
        self.reached += n
        return Verdict('agree' if n else 'unknown', 1)

    def at(self, env, g):
        """the alternative of g that applies at a point"""
        while isinstance(g, DD):
            c = g.c
            if c.kind == 's':
                v = env.any(c.arg)
                g = g.br[1 if abs(v) < mpf('1e-25') else (0 if v < 0 else 2)]
            else:
                g = g.br[1 if env.pred(c.arg) else 0]
        return g

    def never(self, g, assume=True):
        """decide that the condition g is never true where assume holds"""
        return self.equal(g, False, assume)

    def always(self, g, assume=True):
        return self.equal(g, True, assume)
