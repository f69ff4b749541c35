"""Value-number domain of the analysis.

Numbers are polynomials over hash-consed atoms (exact rational coefficients, rational exponents on atoms), conditions are
decision diagrams over sign tests of such polynomials and over opaque predicates.  Everything is interned, so equal normal
forms are the same object.  Arithmetic is that of the reals: the properties are about formulas, not about rounding.
"""
from fractions import Fraction as Q
import sys
import time

sys.setrecursionlimit(20000)


# ----------------------------------------------------------------------------------------------------------------------
# atoms
class Atom:
    __slots__ = ('id', 'kind', 'args', 'info', 'free', 'height')

    def __repr__(self):
        return show_atom(self)


class Cond:
    __slots__ = ('id', 'kind', 'arg', 'n', 'free', 'height')

    def __repr__(self):
        return ('sgn(%s)' if self.kind == 's' else '%s') % (self.arg,)


_cond_tab = {}
CONDS = []


def mk_cond(kind, arg):
    key = (kind, arg.id)
    c = _cond_tab.get(key)
    if c is None:
        c = Cond()
        c.id = len(CONDS)
        c.kind = kind
        c.arg = arg
        c.n = 3 if kind == 's' else 2
        c.free = arg.free
        c.height = arg.height
        CONDS.append(c)
        _cond_tab[key] = c
    return c


class DD:
    __slots__ = ('c', 'br', 'id', 'free', 'height')

    def __repr__(self):
        return show(self)


ATOMS = []
_atom_tab = {}
SPECIAL = set()          # ids of atoms whose products need rewriting (poly / trig / exp)
EMPTY = frozenset()


def _argfree(x):
    if isinstance(x, Poly):
        return x.free
    if isinstance(x, DD):
        return x.free
    if isinstance(x, tuple):
        s = EMPTY
        for y in x:
            s = s | _argfree(y)
        return s
    return EMPTY


def _argheight(x):
    if isinstance(x, (Poly, DD)):
        return x.height
    if isinstance(x, tuple):
        return max([_argheight(y) for y in x], default=0)
    return 0


def _key(x):
    if isinstance(x, (Poly, DD)):
        return ('P' if isinstance(x, Poly) else 'D', x.id)
    if isinstance(x, tuple):
        k = tuple(_key(y) for y in x)
        return k if type(x) is tuple else ('nt', id(x.cls)) + k
    if isinstance(x, (str, int, bool, type(None), Q)):
        return (type(x).__name__, x)
    return ('o', id(x))


def mk_atom(kind, *args, **info):
    key = (kind,) + tuple(_key(a) for a in args)
    a = _atom_tab.get(key)
    if a is not None:
        return a
    a = Atom()
    a.id = len(ATOMS)
    a.kind = kind
    a.args = args
    a.info = info
    ATOMS.append(a)
    _atom_tab[key] = a
    h = max([_argheight(x) for x in args], default=0)
    if kind == 'sym':
        a.free = frozenset((a.id,))
        a.height = 0
    elif kind == 'bv':
        a.free = EMPTY
        a.height = 0
    else:
        f = EMPTY
        for x in args:
            f = f | _argfree(x)
        a.free = f
        a.height = h + (1 if kind in ('sum', 'lam') else 0)
    if kind in ('poly', 'sin', 'cos', 'exp'):
        SPECIAL.add(a.id)
    return a


# ----------------------------------------------------------------------------------------------------------------------
# polynomials
# a limit on the processor time of a stretch of the analysis (set by the interpreter for loops over symbolic conditions)
DEADLINE = [None]
_ticks = [0]


class Late(BaseException):
    pass


def late():
    _ticks[0] += 1
    if not _ticks[0] & 255 and time.process_time() > DEADLINE[0]:
        raise Late()


class Poly:
    __slots__ = ('terms', 'id', '_free', '_height')

    @property
    def free(self):
        f = self._free
        if f is None:
            f = EMPTY
            seen = set()
            for m in self.terms:
                for aid, _ in m:
                    if aid not in seen:
                        seen.add(aid)
                        f = f | ATOMS[aid].free
            self._free = f
        return f

    @property
    def height(self):
        h = self._height
        if h is None:
            h = 0
            for m in self.terms:
                for aid, _ in m:
                    h = max(h, ATOMS[aid].height)
            self._height = h
        return h

    def __repr__(self):
        return show(self)

    def __add__(self, o):
        return padd(self, P(o))

    def __radd__(self, o):
        return padd(P(o), self)

    def __sub__(self, o):
        return padd(self, pscale(P(o), -1))

    def __rsub__(self, o):
        return padd(P(o), pscale(self, -1))

    def __mul__(self, o):
        return pmul(self, P(o))

    __rmul__ = __mul__

    def __neg__(self):
        return pscale(self, -1)

    def const(self):
        """the rational value of a constant polynomial, else None"""
        if not self.terms:
            return 0
        if len(self.terms) == 1 and () in self.terms:
            return self.terms[()]
        return None

    def is_zero(self):
        return not self.terms

    def single(self):
        """the atom when the polynomial is exactly one atom, else None"""
        if len(self.terms) == 1:
            (m, c), = self.terms.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                return ATOMS[m[0][0]]
        return None


_poly_tab = {}
_npoly = [0]


def _norm_c(c):
    if type(c) is Q and c.denominator == 1:
        return int(c)
    return c


def mkp(terms):
    """intern a dict monomial -> coefficient (zero coefficients already removed)"""
    if DEADLINE[0] is not None:
        late()
    key = frozenset(terms.items())
    p = _poly_tab.get(key)
    if p is None:
        p = Poly()
        p.terms = terms
        p.id = _npoly[0]
        p._free = None
        p._height = None
        _npoly[0] += 1
        _poly_tab[key] = p
    return p


ZERO = mkp({})
ONE = mkp({(): 1})


def const(c):
    if not isinstance(c, (int, Q)):
        c = Q(str(c)) if isinstance(c, float) else Q(c)
    c = _norm_c(c if type(c) is Q else int(c))
    return mkp({(): c}) if c != 0 else ZERO


def P(x):
    if isinstance(x, Poly):
        return x
    if isinstance(x, bool):
        return ONE if x else ZERO
    if isinstance(x, Atom):
        return apoly(x)
    return const(x)


def apoly(a, e=1):
    if e == 0:
        return ONE
    return mkp({((a.id, e),): 1})


def padd(a, b):
    if not a.terms:
        return b
    if not b.terms:
        return a
    if len(a.terms) < len(b.terms):
        a, b = b, a
    t = dict(a.terms)
    for m, c in b.terms.items():
        v = t.get(m)
        if v is None:
            t[m] = c
        else:
            v = _norm_c(v + c)
            if v == 0:
                del t[m]
            else:
                t[m] = v
    return mkp(t)


def pscale(a, c):
    c = _norm_c(c)
    if c == 0:
        return ZERO
    if c == 1:
        return a
    return mkp({m: _norm_c(k * c) for m, k in a.terms.items()})


def _mono_merge(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    i = j = 0
    out = []
    n1, n2 = len(m1), len(m2)
    while i < n1 and j < n2:
        a, b = m1[i], m2[j]
        if a[0] == b[0]:
            e = _norm_c(a[1] + b[1])
            if e != 0:
                out.append((a[0], e))
            i += 1
            j += 1
        elif a[0] < b[0]:
            out.append(a)
            i += 1
        else:
            out.append(b)
            j += 1
    out.extend(m1[i:])
    out.extend(m2[j:])
    return tuple(out)


def _special_ok(m):
    """no rewriting needed for this merged monomial?"""
    trig = 0
    exps = 0
    for aid, e in m:
        if aid in SPECIAL:
            k = ATOMS[aid].kind
            if k == 'poly':
                if e >= 1:
                    return False
            elif k == 'exp':
                exps += 1
                if e != 1 or exps > 1:
                    return False
            else:
                if e > 0:
                    trig += e
                    if trig > 1 or e != 1:
                        return False
    return True


_mono_fix_memo = {}


def _fix_mono(m):
    """rewrite a merged monomial with special atoms into a polynomial"""
    r = _mono_fix_memo.get(m)
    if r is not None:
        return r
    plain = []
    polys = []      # polynomial factors to multiply in
    trig = []
    earg = None
    for aid, e in m:
        if aid not in SPECIAL:
            plain.append((aid, e))
            continue
        a = ATOMS[aid]
        if a.kind == 'poly':
            if e >= 1:
                k = int(e // 1)
                rest = _norm_c(e - k)
                if rest != 0:
                    plain.append((aid, rest))
                polys.append(p_ipow(a.args[0], k))
            else:
                plain.append((aid, e))
        elif a.kind == 'exp':
            earg = padd(earg or ZERO, pscale(a.args[0], e))
        else:
            if e > 0 and e == int(e):
                trig.extend([a] * int(e))
            else:
                plain.append((aid, e))
    res = mkp({tuple(plain): 1})
    if earg is not None:
        res = pmul(res, mk_exp(earg))
    if trig:
        t = apoly(trig[0])
        for a in trig[1:]:
            t = _trig_mul_poly(t, a)
        res = _mul_noncollide(res, t)
    for p in polys:
        res = pmul(res, p)
    _mono_fix_memo[m] = res
    return res


def _mul_noncollide(p, t):
    """product when t's monomials are free of conflict except plain/negative trig in p"""
    if len(p.terms) == 1 and len(t.terms) >= 1:
        (m0, c0), = p.terms.items()
        out = {}
        for m, c in t.terms.items():
            mm = _mono_merge(m0, m)
            v = out.get(mm, 0) + c * c0
            v = _norm_c(v)
            if v == 0:
                out.pop(mm, None)
            else:
                out[mm] = v
        return mkp(out)
    return pmul(p, t)


def _trig_mul_poly(t, a):
    out = ZERO
    half = Q(1, 2)
    for m, c in t.terms.items():
        tr = None
        rest = []
        for aid, e in m:
            b = ATOMS[aid]
            if b.kind in ('sin', 'cos') and e == 1 and tr is None:
                tr = b
            else:
                rest.append((aid, e))
        base = mkp({tuple(rest): c})
        if tr is None:
            out = padd(out, pmul(base, apoly(a)))
            continue
        x, y = tr.args[0], a.args[0]
        if tr.kind == 'sin' and a.kind == 'sin':
            r = padd(mk_cos(x - y), pscale(mk_cos(x + y), -1))
        elif tr.kind == 'cos' and a.kind == 'cos':
            r = padd(mk_cos(x - y), mk_cos(x + y))
        elif tr.kind == 'sin':
            r = padd(mk_sin(x + y), mk_sin(x - y))
        else:
            r = padd(mk_sin(y + x), mk_sin(y - x))
        r = pscale(r, half)
        out = padd(out, _mul_noncollide(base, r) if len(base.terms) == 1 else pmul(base, r))
    return out


_mul_memo = {}


def pmul(a, b):
    if not a.terms or not b.terms:
        return ZERO
    if a is ONE:
        return b
    if b is ONE:
        return a
    if a.id > b.id:
        a, b = b, a
    key = (a.id, b.id)
    r = _mul_memo.get(key)
    if r is not None:
        return r
    if len(a.terms) * len(b.terms) > 60000:
        r = apoly(mk_atom('app', '*', (a, b)))      # kept as an uninterpreted product
        _mul_memo[key] = r
        return r
    out = {}
    extra = []
    for m1, c1 in a.terms.items():
        for m2, c2 in b.terms.items():
            m = _mono_merge(m1, m2)
            c = c1 * c2
            if any(aid in SPECIAL for aid, _ in m) and not _special_ok(m):
                extra.append((_fix_mono(m), c))
                continue
            v = out.get(m)
            if v is None:
                out[m] = _norm_c(c)
            else:
                v = _norm_c(v + c)
                if v == 0:
                    del out[m]
                else:
                    out[m] = v
    for p, c in extra:
        for m, k in p.terms.items():
            v = out.get(m)
            kc = k * c
            if v is None:
                out[m] = _norm_c(kc)
            else:
                v = _norm_c(v + kc)
                if v == 0:
                    del out[m]
                else:
                    out[m] = v
    r = mkp(out)
    _mul_memo[key] = r
    return r


class TooBig(Exception):
    pass


def p_ipow(p, k):
    r = ONE
    for _ in range(k):
        r = pmul(r, p)
    return r


def _isqrt_like(n, d):
    """integer d-th root if exact"""
    if n < 0:
        return None
    r = round(n ** (1.0 / d))
    for c in (r - 1, r, r + 1):
        if c >= 0 and c ** d == n:
            return c
    return None


def _num_pow(c, r):
    """c**r for rational c > 0, rational r (exact normal form)"""
    c = Q(c)
    r = Q(r)
    if r.denominator == 1:
        return const(c ** int(r))
    res = ONE
    for n, sgn in ((c.numerator, 1), (c.denominator, -1)):
        m = n
        f = 2
        while m > 1:
            if f * f > m or f > 2000:
                f = m
            k = 0
            while m % f == 0:
                m //= f
                k += 1
            if k:
                e = r * k * sgn
                w = e.numerator // e.denominator
                res = pmul(res, const(Q(f) ** w))
                e = e - w
                if e != 0:
                    res = pmul(res, apoly(mk_atom('poly', const(f)), _norm_c(e)))
            f += 1
    return res


def content(p):
    """(c, mono, q) with p = c * mono * q, q primitive with leading coefficient positive handled by caller"""
    from math import gcd
    num = 0
    den = 1
    mono = None
    for m, c in p.terms.items():
        c = Q(c)
        num = gcd(num, abs(c.numerator))
        den = den * c.denominator // gcd(den, c.denominator)
        if mono is None:
            mono = dict(m)
        else:
            d = dict(m)
            for k in list(mono):
                e = d.get(k, 0)
                mn = min(mono[k], e)
                if mn == 0:
                    del mono[k]
                else:
                    mono[k] = mn
            for k, e in d.items():
                if e < 0 and k not in mono:
                    mono[k] = e
    # atoms with negative exponent anywhere must be pulled out fully
    mins = {}
    for m in p.terms:
        for k, e in m:
            mins[k] = min(mins.get(k, e), e)
    for k, e in mins.items():
        if e < 0:
            mono[k] = e
    c = Q(num, den)
    if not mono:
        mono = ()
    else:
        mono = tuple(sorted(mono.items()))
    inv = tuple((k, -e) for k, e in mono)
    out = {}
    fix = []
    for m, k in p.terms.items():
        mm = _mono_merge(m, inv)
        if any(aid in SPECIAL for aid, _ in mm) and not _special_ok(mm):
            fix.append((mm, k / c))
        else:
            out[mm] = _norm_c(k / c)
    q = mkp(out)
    for mm, k in fix:
        q = padd(q, pscale(_fix_mono(mm), k))
    return c, mono, q


def _lead(p):
    return p.terms[min(p.terms)]


def p_pow(p, r):
    """p ** r, r rational"""
    r = Q(r)
    if r.denominator == 1 and r >= 0:
        return p_ipow(p, int(r))
    if not p.terms:
        return ZERO if r > 0 else apoly(mk_atom('app', 'zero_pow', (const(r),)))
    c0 = p.const()
    if c0 is not None:
        if c0 > 0:
            return _num_pow(c0, r)
        if r.denominator == 1:
            return const(Q(c0) ** int(r))
        return apoly(mk_atom('app', 'neg_pow', (p, const(r))))
    c, mono, q = content(p)
    if any(ATOMS[a].kind in ('sin', 'cos') for a, e in mono) and len(p.terms) > 1:
        # keep trig factors inside (they linearise there)
        keep = tuple((a, e) for a, e in mono if ATOMS[a].kind in ('sin', 'cos') and e > 0)
        if keep:
            mono = tuple(x for x in mono if x not in keep)
            q = pmul(q, mkp({keep: 1}))
    integer = r.denominator == 1
    if len(q.terms) > 1 and integer and _lead(q) < 0:
        q = pscale(q, -1)
        c = -c
    elif len(q.terms) == 1:
        (m, k), = q.terms.items()
        assert True
        c = c * k
        mono = _mono_merge(mono, m)
        q = ONE
    res = ONE
    if c < 0:
        if integer:
            res = const(c ** int(r))
        else:
            q = pscale(q, -1)
            res = _num_pow(-c, r)
            if q.const() is not None:
                # negative monomial under a fractional power: keep the odd atoms inside
                pass
    else:
        res = _num_pow(c, r) if not integer else const(Q(c) ** int(r))
    inner = q
    for aid, e in mono:
        a = ATOMS[aid]
        if integer:
            res = pmul(res, _atom_pow(a, _norm_c(e * r)))
            continue
        s = atom_sign(a)
        if s in ('+', '0+') or a.kind == 'poly':
            res = pmul(res, _atom_pow(a, _norm_c(e * r)))
        else:
            e = Q(e)
            k = (e / 2).numerator // (e / 2).denominator if e.denominator == 1 else 0
            if k:
                res = pmul(res, _atom_pow(mk_atom('poly', apoly(a, 2)), _norm_c(Q(k) * r)))
            rest = e - 2 * k
            if rest:
                inner = pmul(inner, apoly(a, _norm_c(rest)))
    if inner is not ONE:
        ci = inner.const()
        if ci is not None:
            res = pmul(res, p_pow(inner, r))
        else:
            res = pmul(res, _atom_pow(mk_atom('poly', inner), _norm_c(r)))
    return res


def _atom_pow(a, e):
    if e == 0:
        return ONE
    m = ((a.id, e),)
    if a.id in SPECIAL and not _special_ok(m):
        return _fix_mono(m)
    return mkp({m: 1})


# ---- elementary functions -------------------------------------------------------------------------------------------
PI = mk_atom('sym', 'pi', sign='+')
PIP = apoly(PI)


def _split_pi(p):
    """p = c*pi + rest (c rational)"""
    c = p.terms.get(((PI.id, 1),), 0)
    if c == 0:
        return 0, p
    t = dict(p.terms)
    del t[((PI.id, 1),)]
    return c, mkp(t)


def mk_sin(x):
    return _trig('sin', x)


def mk_cos(x):
    return _trig('cos', x)


_SPEC = {0: (0, 1), Q(1, 6): (Q(1, 2), 'r32'), Q(1, 4): ('r22', 'r22'), Q(1, 3): ('r32', Q(1, 2)), Q(1, 2): (1, 0)}
_trig_memo = {}


def _trig(kind, x):
    key = (kind, x.id)
    r = _trig_memo.get(key)
    if r is None:
        r = _trig0(kind, x)
        _trig_memo[key] = r
    return r


def _trig0(kind, x):
    if not x.terms:
        return ZERO if kind == 'sin' else ONE
    c, rest = _split_pi(x)
    if c != 0:
        k = (Q(c) * 2)
        n = k.numerator // k.denominator        # floor(2c): quarter turns
        frac = Q(c) - Q(n, 2)
        if n % 4 != 0 or n != 0:
            base = padd(rest, pscale(PIP, frac)) if frac else rest
            n %= 4
            s, co = (lambda: _trig('sin', base)), (lambda: _trig('cos', base))
            if kind == 'sin':
                return [s, co, lambda: pscale(s(), -1), lambda: pscale(co(), -1)][n]()
            return [co, lambda: pscale(s(), -1), lambda: pscale(co(), -1), s][n]()
        if not rest.terms and frac in _SPEC:
            v = _SPEC[frac][0 if kind == 'sin' else 1]
            if v == 'r32':
                return pscale(p_pow(const(3), Q(1, 2)), Q(1, 2))
            if v == 'r22':
                return pscale(p_pow(const(2), Q(1, 2)), Q(1, 2))
            return const(v)
    # inverse functions inside the argument
    for m, k in x.terms.items():
        if len(m) == 1 and m[0][1] == 1:
            a = ATOMS[m[0][0]]
            if a.kind == 'app' and a.args[0] in ('asin', 'acos', 'atan2') and Q(k).denominator == 1:
                sa, ca = _inv_trig(a)
                step = 1 if k > 0 else -1
                other = x - pscale(apoly(a), step)
                if step < 0:
                    sa = pscale(sa, -1)
                so, co = _trig('sin', other), _trig('cos', other)
                if kind == 'sin':
                    return padd(pmul(sa, co), pmul(ca, so))
                return padd(pmul(ca, co), pscale(pmul(sa, so), -1))
    lead = x.terms[min(x.terms)]
    if lead < 0:
        y = pscale(x, -1)
        if kind == 'sin':
            return pscale(_trig('sin', y), -1)
        return _trig('cos', y)
    return apoly(mk_atom(kind, x))


def _inv_trig(a):
    name, args = a.args[0], a.args[1]
    if name == 'asin':
        u = args[0]
        return u, p_pow(ONE - pmul(u, u), Q(1, 2))
    if name == 'acos':
        u = args[0]
        return p_pow(ONE - pmul(u, u), Q(1, 2)), u
    y, x = args
    r = p_pow(padd(pmul(x, x), pmul(y, y)), Q(-1, 2))
    return pmul(y, r), pmul(x, r)


def mk_exp(x):
    if not x.terms:
        return ONE
    # exp(c*log(u) + rest) with rational c  ->  u**c * exp(rest)
    for m, k in x.terms.items():
        if len(m) == 1 and m[0][1] == 1:
            a = ATOMS[m[0][0]]
            if a.kind == 'app' and a.args[0] == 'log':
                return pmul(p_pow(a.args[1][0], k), mk_exp(x - pscale(apoly(a), k)))
    return apoly(mk_atom('exp', x))


def mk_log(x):
    if x is ONE:
        return ZERO
    if len(x.terms) == 1:
        (m, c), = x.terms.items()
        if c > 0 and all(atom_sign(ATOMS[a]) in ('+', '0+') or ATOMS[a].kind in ('poly', 'exp') for a, e in m):
            r = ZERO
            if c != 1:
                r = apoly(mk_atom('app', 'log', (const(c),)))
            for aid, e in m:
                a = ATOMS[aid]
                if a.kind == 'exp':
                    r = padd(r, pscale(a.args[0], e))
                else:
                    base = a.args[0] if a.kind == 'poly' else apoly(a)
                    r = padd(r, pscale(apoly(mk_atom('app', 'log', (base,))), e))
            return r
    return apoly(mk_atom('app', 'log', (x,)))


# ---- sign reasoning -------------------------------------------------------------------------------------------------
def sym(name, sign=None, integer=False, lo=None, hi=None, uniq=False):
    """a symbol; uniq=True makes a new one even if the name is in use"""
    if uniq:
        name = '%s#%d' % (name, len(ATOMS))
    key = ('sym', ('str', name))
    a = _atom_tab.get(key)
    if a is None:
        a = mk_atom('sym', name)
        a.info = dict(sign=sign, int=integer, lo=lo, hi=hi)
    return a


_INF = sym('infinity', sign='+')
_INF.info['rng'] = (1e300, 1e300)
INF = apoly(_INF)
_INF_MONO = next(iter(INF.terms))


def index(n, name='k'):
    """fresh index variable ranging over [0, n)"""
    n = P(n)
    return sym(name, sign='0+', integer=True, lo=ZERO, hi=n - 1, uniq=True)


def atom_sign(a):
    k = a.kind
    if k == 'sym':
        s = a.info.get('sign')
        if s:
            return s
        lo = a.info.get('lo')
        if lo is not None:
            c = lo.const()
            if c is not None:
                return '+' if c > 0 else ('0+' if c == 0 else None)
        return None
    if k == 'exp':
        return '+'
    if k == 'poly':
        return '0+'
    if k == 'app':
        if a.args[0] in ('fdiv', 'mod'):
            return '0+'
        return a.info.get('sign')
    if k == 'sum':
        b = a.args[1]
        if isinstance(b, Poly):
            s = sign_of(b)
            if s in ('+', '0+', '0'):
                return '0+'
    return None


def _mono_sign(m):
    """sign of a monomial: '+', '0+', '-', '0-', None"""
    neg = False
    strict = True
    for aid, e in m:
        a = ATOMS[aid]
        s = atom_sign(a)
        if a.kind == 'poly':
            s = '+' if e < 0 else '0+'
            if a.kind == 'poly' and e > 0:
                b = a.args[0]
                if len(b.terms) == 1 and not isinstance(e, Q):
                    pass
        ev = (e % 2 == 0) if not isinstance(e, Q) or e.denominator == 1 else False
        if s is None:
            if ev:
                s = '+' if e < 0 else '0+'
            else:
                return None
        elif s in ('-', '0-'):
            if isinstance(e, Q) and e.denominator != 1:
                return None
            if not ev:
                neg = not neg
            s = '+' if s == '-' else '0+'
        if e < 0:
            s = '+'
        if s == '0+':
            strict = False
    if neg:
        return '-' if strict else '0-'
    return '+' if strict else '0+'


_sign_memo = {}


def sign_of(p):
    """'+', '-', '0', '0+', '0-' or None"""
    c = p.const()
    if c is not None:
        return '+' if c > 0 else '-' if c < 0 else '0'
    r = _sign_memo.get(p.id, 0)
    if r != 0:
        return r
    _sign_memo[p.id] = None        # recursion guard
    r = None
    if _INF.id in p.free and _INF_MONO in p.terms and sum(any(aid == _INF.id for aid, e in m) for m in p.terms) == 1:
        r = '+' if p.terms[_INF_MONO] > 0 else '-'
    elif _nonneg(p, True):
        r = '+'
    else:
        n = pscale(p, -1)
        if _nonneg(n, True):
            r = '-'
        elif _nonneg(p, False):
            r = '0+'
        elif _nonneg(n, False):
            r = '0-'
    _sign_memo[p.id] = r
    return r


def _all_mono_nonneg(p, strict):
    pos = False
    for m, c in p.terms.items():
        s = _mono_sign(m)
        if s is None:
            return False
        if c < 0:
            s = {'+': '-', '-': '+', '0+': '0-', '0-': '0+'}[s]
        if s in ('-', '0-'):
            return False
        if s == '+':
            pos = True
    return pos or not strict


def _bounds(a):
    if a.kind == 'sym':
        return a.info.get('lo'), a.info.get('hi')
    if a.kind == 'app' and a.args[0] == 'mod':
        return ZERO, a.args[1][1] - 1
    if a.kind == 'app' and a.args[0] == 'fdiv':
        p, q = a.args[1]
        hi = None
        ub = _upper(p)
        if ub is not None:
            h = fdiv(ub, q)
            s = h.single()
            if not (s is not None and s.kind == 'app' and s.args[0] == 'fdiv'):
                hi = h
        return ZERO, hi
    if a.kind == 'app':
        return a.info.get('lo'), a.info.get('hi')
    return None, None


def _upper(p):
    """upper bound of p substituting upper bounds of index variables (coefficients of known sign)"""
    for _ in range(6):
        done = True
        for a in _linear_atoms(p):
            lo, hi = _bounds(a)
            if lo is None or hi is None:
                continue
            co, rest = _lin(p, a)
            s = sign_of(co)
            if s in ('+', '0+'):
                p = rest + co * hi
            elif s in ('-', '0-'):
                p = rest + co * lo
            else:
                return None
            done = False
            break
        if done:
            return p
    return p


def _linear_atoms(p):
    out = []
    seen = set()
    for m in p.terms:
        for aid, e in m:
            if aid not in seen:
                seen.add(aid)
                out.append(ATOMS[aid])
    return out


def _lin(p, a):
    """p = co*a + rest if p is linear in a, and nothing else in p depends on a; else (None, None)"""
    co = {}
    rest = {}
    for m, c in p.terms.items():
        e0 = 0
        for aid, e in m:
            if aid == a.id:
                e0 = e
            elif a.kind == 'sym' and a.id in ATOMS[aid].free:
                return None, None
        if e0 == 0:
            rest[m] = c
        elif e0 == 1:
            co[tuple(x for x in m if x[0] != a.id)] = c
        else:
            return None, None
    return mkp(co), mkp(rest)


def _nonneg(p, strict, depth=0):
    c = p.const()
    if c is not None:
        return c > 0 or (c == 0 and not strict)
    if _all_mono_nonneg(p, strict):
        return True
    if depth > 7 or len(p.terms) > 60:
        return False
    # positive denominators do not matter
    neg = {}
    for m in p.terms:
        for aid, e in m:
            if e < 0:
                neg[aid] = min(neg.get(aid, 0), e)
    if neg and all(atom_sign(ATOMS[a]) in ('+', '0+') or ATOMS[a].kind == 'poly' or e % 2 == 0 for a, e in neg.items()):
        q = p
        for aid, e in neg.items():
            q = pmul(q, _atom_pow(ATOMS[aid], -e))
        return _nonneg(q, strict, depth + 1)
    ats = _linear_atoms(p)
    # eliminate index variables (those with an upper bound first)
    cand = []
    for a in ats:
        lo, hi = _bounds(a)
        if lo is None and hi is None:
            continue
        cand.append((0 if hi is not None else 1, -a.id, a, lo, hi))
    cand.sort(key=lambda t: t[:2])
    for _, _, a, lo, hi in cand:
        co, rest = _lin(p, a)
        if co is None or not co.terms:
            continue
        s = sign_of(co) if co is not p else None
        if s in ('+', '0+', '0') and lo is not None:
            return _nonneg(rest + co * lo, strict, depth + 1)
        if s in ('-', '0-') and hi is not None:
            return _nonneg(rest + co * hi, strict, depth + 1)
        if s is None and lo is not None and hi is not None:
            if _nonneg(rest + co * lo, strict, depth + 1) and _nonneg(rest + co * hi, strict, depth + 1):
                return True
    # shift variables with a positive constant lower bound
    q = p
    changed = False
    for a in ats:
        lo, hi = _bounds(a)
        if a.kind == 'sym' and lo is not None and lo.const() not in (None, 0):
            v = sym('~' + a.args[0], sign='0+', integer=True)
            q = subst(q, {a.id: lo + apoly(v)})
            changed = True
    if changed and isinstance(q, Poly):
        return _all_mono_nonneg(q, strict)
    return False


# ---- integer division -----------------------------------------------------------------------------------------------
def exact_div(p, q):
    """p / q as a polynomial with no new denominators, else None"""
    c = q.const()
    if c is not None:
        return pscale(p, Q(1) / c) if c else None
    if len(q.terms) == 1:
        (m, k), = q.terms.items()
        inv = tuple((a, -e) for a, e in m)
        out = {}
        for mm, c in p.terms.items():
            d = dict(mm)
            for a, e in m:
                if d.get(a, 0) < e:
                    return None
            out[_mono_merge(mm, inv)] = _norm_c(Q(c) / k)
        return mkp(out)
    if p is q:
        return ONE
    # multi-term divisor: try a linear factor
    for a in _linear_atoms(q):
        co, rest = _lin(q, a)
        if co is None or co.const() is None or not co.terms:
            continue
        # long division in a
        res = ZERO
        r = p
        for _ in range(6):
            deg = 0
            for mm in r.terms:
                for aid, e in mm:
                    if aid == a.id:
                        deg = max(deg, e)
            if deg == 0:
                break
            lead = {tuple(x if x[0] != a.id else (x[0], x[1] - 1) for x in mm if not (x[0] == a.id and x[1] == 1)): c
                    for mm, c in r.terms.items() if (a.id, deg) in mm}
            t = pscale(mkp(lead), Q(1) / co.const())
            res = padd(res, t)
            r = r - pmul(t, q)
        if not r.terms:
            return res
    return None


_fdiv_memo = {}


def fdiv(p, q):
    """floor(p / q) for integer polynomials"""
    key = (p.id, q.id)
    r = _fdiv_memo.get(key)
    if r is not None:
        return r
    r = _fdiv(p, q)
    _fdiv_memo[key] = r
    return r


def _split_div(p, q):
    """p = q*a + b where a collects everything visibly divisible by q (integer coefficients)"""
    a = {}
    b = {}
    if len(q.terms) == 1:
        (m, k), = q.terms.items()
        inv = tuple((x, -e) for x, e in m)
        for mm, c in p.terms.items():
            d = dict(mm)
            if all(d.get(x, 0) >= e for x, e in m):
                cc = Q(c) / k
                if cc.denominator == 1:
                    a[_mono_merge(mm, inv)] = int(cc)
                    continue
                fl = cc.numerator // cc.denominator
                if fl and not _mono_merge(mm, inv):
                    a[_mono_merge(mm, inv)] = fl
                    b[mm] = _norm_c(c - fl * k)
                    continue
            b[mm] = c
        return mkp(a), mkp(b)
    r = exact_div(p, q)
    if r is not None:
        return r, ZERO
    # q = n + c : peel multiples using the leading atom
    for at in _linear_atoms(q):
        co, rest = _lin(q, at)
        if co is None or not co.terms or co.const() is None or abs(co.const()) != 1:
            continue
        acc = ZERO
        r = p
        for _ in range(4):
            lead = {tuple(x if x[0] != at.id else (x[0], x[1] - 1) for x in mm if not (x[0] == at.id and x[1] == 1)): c
                    for mm, c in r.terms.items() if any(x[0] == at.id for x in mm)}
            if not lead:
                break
            t = pscale(mkp(lead), Q(1) / co.const())
            acc = acc + t
            r = r - t * q
        return acc, r
    return ZERO, p


def _fdiv(p, q):
    cp, cq = p.const(), q.const()
    if cq is not None and cp is not None and cq != 0:
        v = Q(cp) / cq
        return const(v.numerator // v.denominator)
    if q is ONE:
        return p
    a, b = _split_div(p, q)
    if not b.terms:
        return a
    for adj in (0, -1, 1):
        bb = b - q * adj if adj else b
        if _nonneg(bb, False) and _nonneg(q - bb - 1, False):
            return a + adj
    if a.terms:
        # floor((q*a + b)/q) = a + floor(b/q)
        return a + fdiv(b, q)
    return apoly(mk_atom('app', 'fdiv', (p, q), int=True))


def imod(p, q):
    if q is ONE:
        return ZERO
    a, b = _split_div(p, q)
    if not b.terms:
        return ZERO
    for adj in (0, -1, 1):
        bb = b - q * adj if adj else b
        if _nonneg(bb, False) and _nonneg(q - bb - 1, False):
            return bb
    cp, cq = p.const(), q.const()
    if cq is not None and cp is not None and cq != 0:
        return const(Q(cp) % Q(cq))
    return apoly(mk_atom('app', 'mod', (b, q), int=True))


# ----------------------------------------------------------------------------------------------------------------------
# decision diagrams ("gated values"); a leaf is any Python object, numbers are Poly, booleans are bool
_dd_tab = {}
_ndd = [0]
_keep = []


def same(a, b):
    if a is b:
        return True
    if isinstance(a, (Poly, DD)) or isinstance(b, (Poly, DD)):
        return False
    if type(a) is type(b) and isinstance(a, (str, bool, int)):
        return a == b
    return False


def mk_node(c, br):
    if DEADLINE[0] is not None:
        late()
    b0 = br[0]
    if all(same(b0, b) for b in br[1:]):
        return b0
    key = (c.id,) + tuple(_key(b) for b in br)
    d = _dd_tab.get(key)
    if d is None:
        if c.kind == 's' and same(b0, br[2]) and not isinstance(b0, bool) and at_zero(c, b0, br[1]):
            _dd_tab[key] = b0
            return b0
        d = DD()
        d.c = c
        d.br = tuple(br)
        d.id = _ndd[0]
        _ndd[0] += 1
        f = c.free
        h = c.height
        for b in br:
            if isinstance(b, (Poly, DD)):
                f = f | b.free
                h = max(h, b.height)
            elif not isinstance(b, (str, bool, type(None), int)):
                _keep.append(b)
                bf = getattr(b, 'gfree', None)
                if bf:
                    f = f | bf
        d.free = f
        d.height = h
        _dd_tab[key] = d
    return d


_zero_memo = {}


def zero_subst(c):
    """the substitution that expresses 'the argument of the sign condition is 0', for an argument linear in a symbol"""
    mp = _zero_memo.get(c.id)
    if mp is None:
        mp = {}
        p = c.arg
        cand = [m[0][0] for m, k in p.terms.items() if len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].kind == 'sym']
        for aid in sorted(cand, reverse=True):
            rest = {m: k for m, k in p.terms.items() if m != ((aid, 1),)}
            if not any(ATOMS[x].free & ATOMS[aid].free for m in rest for x, _ in m):
                k = p.terms[((aid, 1),)]
                mp = {aid: pscale(mkp(rest), Q(-1) / k)}
                break
        _zero_memo[c.id] = mp
    return mp


def at_zero(c, v, z):
    """v and z agree where the argument of the condition is 0"""
    if not isinstance(v, (Poly, DD)) or not isinstance(z, (Poly, DD)):
        return False
    mp = zero_subst(c)
    if not mp or not (v.free & frozenset(mp)) and not (z.free & frozenset(mp)):
        return False
    if not all(isinstance(l, Poly) for g in (v, z) for l in leaves(g)):
        return False
    try:
        a, b = subst(v, mp), subst(z, mp)
    except (ZeroDivisionError, ValueError, OverflowError):
        return False
    return same(a, b) and isinstance(a, (Poly, DD)) and all(isinstance(l, Poly) for l in leaves(a))


def _top(*gs):
    t = None
    for g in gs:
        if isinstance(g, DD) and (t is None or g.c.id < t.id):
            t = g.c
    return t


def cof(g, c, i):
    if isinstance(g, DD) and g.c is c:
        return g.br[i]
    return g


def split(c, br):
    """the diagram that tests c and continues with br[i] (br may test smaller conditions)"""
    t = _top(*br)
    if t is None or t.id > c.id:
        return mk_node(c, br)
    if t is c:
        return mk_node(c, [cof(b, c, i) for i, b in enumerate(br)])
    return mk_node(t, [split(c, [cof(b, t, i) for b in br]) for i in range(t.n)])


def lift(f, *gs):
    """apply f to the leaves of gated arguments"""
    memo = {}

    def go(args):
        t = _top(*args)
        if t is None:
            return f(*args)
        k = tuple(_key(a) for a in args)
        r = memo.get(k)
        if r is None:
            r = split(t, [go(tuple(cof(a, t, i) for a in args)) for i in range(t.n)])
            memo[k] = r
        return r
    for g in gs:
        if isinstance(g, DD):
            return go(tuple(gs))
    return f(*gs)


def ite(g, a, b):
    if g is True:
        return a
    if g is False:
        return b
    if same(a, b):
        return a
    if not isinstance(g, DD):
        raise TypeError('ite on %r' % (g,))
    memo = {}

    def go(g, a, b):
        if g is True:
            return a
        if g is False:
            return b
        if same(a, b):
            return a
        if not isinstance(g, DD):
            return g          # unknown leaf
        k = (g.id, _key(a), _key(b))
        r = memo.get(k)
        if r is None:
            t = _top(g, a, b)
            r = mk_node(t, [go(cof(g, t, i), cof(a, t, i), cof(b, t, i)) for i in range(t.n)])
            memo[k] = r
        return r
    return go(g, a, b)


def g_not(g):
    return lift(lambda x: (not x) if isinstance(x, bool) else x, g)


def g_and(a, b):
    if a is False or b is False:
        return False
    if a is True:
        return b
    if b is True:
        return a
    return ite(a, b, False)


def g_or(a, b):
    if a is True or b is True:
        return True
    if a is False:
        return b
    if b is False:
        return a
    return ite(a, True, b)


class _Nan:
    def __repr__(self):
        return 'NaN'


NAN = _Nan()


class _Bot:
    def __repr__(self):
        return 'BOT'


BOT = _Bot()


def restrict(v, pc):
    """simplify v knowing that pc (gated boolean) is true"""
    if pc is True or not isinstance(v, DD):
        return v
    if pc is False:
        return v
    w = ite(pc, v, BOT)
    return drop_bot(w)


def drop_bot(w, memo=None):
    if not isinstance(w, DD):
        return w
    if memo is None:
        memo = {}
    r = memo.get(w.id)
    if r is None:
        br = [drop_bot(b, memo) for b in w.br]
        live = [b for b in br if b is not BOT]
        if not live:
            r = BOT
        elif all(same(live[0], b) for b in live[1:]):
            r = live[0]
        else:
            r = mk_node(w.c, [live[0] if b is BOT else b for b in br]) if False else mk_node(w.c, br)
        memo[w.id] = r
    return r


def leaves(g, out=None, seen=None):
    if out is None:
        out, seen = [], set()
    if isinstance(g, DD):
        if g.id not in seen:
            seen.add(g.id)
            for b in g.br:
                leaves(b, out, seen)
    elif not any(same(g, o) for o in out):
        out.append(g)
    return out


# ---- sign tests -----------------------------------------------------------------------------------------------------
def sgn3(p, neg, zero, pos):
    """gated value by the sign of p"""
    s = sign_of(p)
    if s == '+':
        return pos
    if s == '-':
        return neg
    if s == '0':
        return zero
    p, flip = canon_sign(p)
    if flip:
        neg, pos = pos, neg
        s = {'0+': '0-', '0-': '0+', None: None}[s]
    if s == '0+':
        neg = zero      # impossible branch: choose so that it merges
        if same(zero, pos):
            return zero
        return split(mk_cond('s', p), [BOTfill(zero, pos), zero, pos])
    if s == '0-':
        if same(zero, neg):
            return zero
        return split(mk_cond('s', p), [neg, zero, BOTfill(zero, neg)])
    return split(mk_cond('s', p), [neg, zero, pos])


def BOTfill(a, b):
    return a


_canon_sign_memo = {}


def canon_sign(p):
    r = _canon_sign_memo.get(p.id)
    if r is None:
        c, mono, q = content(p)
        flip = False
        keep = []
        for aid, e in mono:
            a = ATOMS[aid]
            s = atom_sign(a)
            if s == '+' or (a.kind == 'poly' and e < 0) or (e < 0 and s == '0+'):
                continue
            if e % 2 == 0 and e < 0:
                continue
            keep.append((aid, e if e > 0 else (-e) % 2 or 1))
        if keep:
            q = pmul(q, mkp({tuple(keep): 1}))
        if _lead(q) < 0:
            q = pscale(q, -1)
            flip = True
        r = (q, flip)
        _canon_sign_memo[p.id] = r
    return r


def cmp_lt(p):
    return sgn3(p, True, False, False)


def eq0(p):
    return sgn3(p, False, True, False)


def ge0(p):
    return sgn3(p, False, True, True)


def pred(atom):
    """opaque predicate"""
    return mk_node(mk_cond('b', atom), [False, True])


# ---- lifted arithmetic ----------------------------------------------------------------------------------------------
class Opaque:
    """value the analysis cannot describe; it contaminates everything computed from it"""
    __slots__ = ('why',)

    def __init__(self, why):
        self.why = why

    def __repr__(self):
        return '<unknown: %s>' % self.why


def num(x):
    """leaf as number"""
    if isinstance(x, Poly):
        return x
    if isinstance(x, bool):
        return ONE if x else ZERO
    if isinstance(x, (int, Q)):
        return const(x)
    return None


def _n2(f):
    def g(a, b):
        def leaf(x, y):
            if isinstance(x, Opaque):
                return x
            if isinstance(y, Opaque):
                return y
            if x is BOT or y is BOT:
                return BOT
            if x is NAN or y is NAN:
                return NAN
            px, py = num(x), num(y)
            if px is None or py is None:
                return Opaque('arithmetic on %r and %r' % (type(x).__name__, type(y).__name__))
            return f(px, py)
        if isinstance(a, Poly) and isinstance(b, Poly):
            return f(a, b)
        return lift(leaf, a, b)
    return g


def _n1(f):
    def g(a):
        def leaf(x):
            if isinstance(x, Opaque) or x is BOT or x is NAN:
                return x
            px = num(x)
            if px is None:
                return Opaque('arithmetic on %s' % type(x).__name__)
            return f(px)
        if isinstance(a, Poly):
            return f(a)
        return lift(leaf, a)
    return g


g_add = _n2(padd)
g_sub = _n2(lambda a, b: padd(a, pscale(b, -1)))
g_mul = _n2(pmul)
g_neg = _n1(lambda a: pscale(a, -1))


def _div(a, b):
    c = b.const()
    if c is not None:
        if c == 0:
            return Opaque('division by zero')
        return pscale(a, Q(1) / c)
    return pmul(a, p_pow(b, -1))


g_div = _n2(_div)
g_fdiv = _n2(fdiv)
g_mod = _n2(imod)
g_sqrt = _n1(lambda a: p_pow(a, Q(1, 2)))
g_sin = _n1(mk_sin)
g_cos = _n1(mk_cos)
g_exp = _n1(mk_exp)
g_log = _n1(mk_log)


def _abs(a):
    s = sign_of(a)
    if s in ('+', '0+', '0'):
        return a
    if s in ('-', '0-'):
        return pscale(a, -1)
    return p_pow(pmul(a, a), Q(1, 2))


g_abs = _n1(_abs)


def _pow(a, b):
    c = b.const()
    if c is not None:
        return p_pow(a, c)
    c = a.const()
    if c is not None and c == 1:
        return ONE
    return mk_exp(pmul(b, mk_log(a)))


g_pow = _n2(_pow)


def app(name, *args, **info):
    """uninterpreted function of gated arguments; a number"""
    def leaf(*xs):
        for x in xs:
            if isinstance(x, Opaque) or x is BOT:
                return x
        return apoly(mk_atom('app', name, tuple(P(x) if isinstance(x, (int, Q)) and not isinstance(x, bool) else x for x in xs), **info))
    return lift(leaf, *args)


def papp(name, *args):
    """uninterpreted predicate of gated arguments"""
    def leaf(*xs):
        for x in xs:
            if isinstance(x, Opaque) or x is BOT:
                return x
        return pred(mk_atom('app', name, tuple(xs)))
    return lift(leaf, *args)


def _asin(a):
    c = a.const()
    if c == 0:
        return ZERO
    if c in (1, -1):
        return pscale(PIP, Q(c, 2))
    return apoly(mk_atom('app', 'asin', (a,)))


def _acos(a):
    c = a.const()
    if c == 1:
        return ZERO
    if c == 0:
        return pscale(PIP, Q(1, 2))
    if c == -1:
        return PIP
    return apoly(mk_atom('app', 'acos', (a,)))


def _pos_scale(y, x):
    """divide both by their common positive content (atan2 is homogeneous)"""
    if not y.terms or not x.terms:
        return y, x
    cy, my, qy = content(y)
    cx, mx, qx = content(x)
    dy, dx = dict(my), dict(mx)
    common = []
    for aid in set(dy) | set(dx):
        e = min(dy.get(aid, 0), dx.get(aid, 0))
        a = ATOMS[aid]
        if e and (atom_sign(a) == '+' or (a.kind == 'poly')):
            common.append((aid, -e))
    if common or cy != 1:
        f = pscale(mkp({tuple(sorted(common)): 1}), 1 / cy)
        return pmul(y, f), pmul(x, f)
    return y, x


def _atan2(y, x):
    if not y.terms:
        s = sign_of(x)
        if s in ('+',):
            return ZERO
        if s == '-':
            return PIP
    if not x.terms:
        s = sign_of(y)
        if s == '+':
            return pscale(PIP, Q(1, 2))
        if s == '-':
            return pscale(PIP, Q(-1, 2))
    y, x = _pos_scale(y, x)
    return apoly(mk_atom('app', 'atan2', (y, x)))


g_asin = _n1(_asin)
g_acos = _n1(_acos)
g_atan2 = _n2(_atan2)
g_atan = _n1(lambda a: ZERO if not a.terms else apoly(mk_atom('app', 'atan', (a,))))


# ---- substitution ---------------------------------------------------------------------------------------------------
def subst(g, mp, memo=None):
    """capture-avoiding substitution of symbols (atom id -> gated number)"""
    if memo is None:
        memo = {}
    return _subst(g, mp, frozenset(mp), memo)


def _subst(g, mp, keys, memo):
    if isinstance(g, Poly):
        if not (g.free & keys):
            return g
        k = ('P', g.id)
        r = memo.get(k)
        if r is None:
            r = _subst_poly(g, mp, keys, memo)
            memo[k] = r
        return r
    if isinstance(g, DD):
        if not (g.free & keys):
            return g
        k = ('D', g.id)
        r = memo.get(k)
        if r is None:
            br = [_subst(b, mp, keys, memo) for b in g.br]
            r = _subst_cond(g.c, br, mp, keys, memo)
            memo[k] = r
        return r
    if isinstance(g, tuple):
        return _retup(g, [_subst(x, mp, keys, memo) for x in g])
    f = getattr(g, 'gsubst', None)
    if f is not None:
        return f(mp)
    return g


def _retup(g, items):
    return tuple(items) if type(g) is tuple else type(g).make(g.cls, items)


def _subst_cond(c, br, mp, keys, memo):
    if not (c.free & keys):
        return split(c, br)
    if c.kind == 's':
        p = _subst(c.arg, mp, keys, memo)
        return lift3(p, br)
    b = _subst_atom_pred(c.arg, mp, keys, memo)
    return ite(b, br[1], br[0])


def lift3(p, br):
    if isinstance(p, Poly):
        return sgn3(p, *br)
    if isinstance(p, DD):
        return split(p.c, [lift3(b, br) for b in p.br])
    return p


def _subst_poly(p, mp, keys, memo):
    keep = {}
    acc = None
    for m, c in p.terms.items():
        hit = False
        for aid, e in m:
            if ATOMS[aid].free & keys:
                hit = True
                break
        if not hit:
            keep[m] = c
            continue
        t = const(c)
        rest = []
        fs = []
        for aid, e in m:
            a = ATOMS[aid]
            if a.free & keys:
                fs.append((_subst_atom(a, mp, keys, memo), e, a))
            else:
                rest.append((aid, e))
        t = mkp({tuple(rest): c})
        for v, e, a in fs:
            if e == 1:
                t = g_mul(t, v)
            else:
                t = g_mul(t, lift(lambda x, e=e: p_pow(x, e) if isinstance(x, Poly) else x, v))
        acc = t if acc is None else g_add(acc, t)
    k = mkp(keep)
    return k if acc is None else g_add(k, acc)


def _subst_atom(a, mp, keys, memo):
    k = ('A', a.id)
    r = memo.get(k)
    if r is None:
        r = _subst_atom0(a, mp, keys, memo)
        memo[k] = r
    return r


def _subst_atom0(a, mp, keys, memo):
    if a.kind == 'sym':
        return mp.get(a.id, apoly(a))
    if a.kind == 'poly':
        return _subst(a.args[0], mp, keys, memo)
    if a.kind == 'sin':
        return g_sin(_subst(a.args[0], mp, keys, memo))
    if a.kind == 'cos':
        return g_cos(_subst(a.args[0], mp, keys, memo))
    if a.kind == 'exp':
        return g_exp(_subst(a.args[0], mp, keys, memo))
    if a.kind == 'app':
        args = [_subst(x, mp, keys, memo) for x in a.args[1]]
        return rebuild_app(a.args[0], args, a.info)
    if a.kind == 'sum':
        n, body = a.args
        n2 = _subst(n, mp, keys, memo)
        return mk_sum_from(n2, lambda v: _subst(inst(body, v, n), mp, keys, {}))
    if a.kind == 'lam':
        n, body = a.args
        n2 = _subst(n, mp, keys, memo)
        if not isinstance(n2, Poly):
            return Opaque('gated dimension')
        v = index(n2)
        return apoly(mk_lam(v, n2, _subst(inst(body, v, n), mp, keys, {})))
    raise AssertionError(a.kind)


REBUILD = {}


def rebuild_app(name, args, info=None):
    f = REBUILD.get(name)
    if f is not None:
        return f(*args)
    return app(name, *args, **(info or {}))


def _fixnum(f):
    return f


REBUILD.update({'asin': g_asin, 'acos': g_acos, 'atan2': g_atan2, 'atan': g_atan, 'log': g_log,
                'fdiv': g_fdiv, 'mod': g_mod})


def _subst_atom_pred(a, mp, keys, memo):
    if a.kind == 'app':
        args = [_subst(x, mp, keys, memo) for x in a.args[1]]
        f = REBUILD.get(a.args[0])
        if f is not None:
            return f(*args)
        return papp(a.args[0], *args)
    if a.kind == 'sym':
        v = mp.get(a.id)
        if v is None:
            return pred(a)
        if isinstance(v, Poly):
            s = v.single()
            if s is not None:
                return pred(s)
        return v
    raise AssertionError(a.kind)


# ---- binders --------------------------------------------------------------------------------------------------------
def bvar(level):
    return mk_atom('bv', level)


def _has_dep(g, v):
    return isinstance(g, (Poly, DD)) and v.id in g.free


def height(g):
    return g.height if isinstance(g, (Poly, DD)) else 0


def abstract(v, body):
    """replace the index symbol by the canonical bound variable"""
    lv = height(body) + 1
    return subst(body, {v.id: apoly(bvar(lv))}), lv


def inst(body, v, n=None):
    """instantiate the outermost bound variable of a binder body"""
    lv = _outer_level(body)
    return _inst(body, lv, apoly(v) if isinstance(v, Atom) else v, {})


_lvl = {}


def _outer_level(body):
    return height(body) + 1


def _inst(g, lv, val, memo):
    if isinstance(g, Poly):
        k = ('P', g.id)
        r = memo.get(k)
        if r is None:
            acc = None
            keep = {}
            for m, c in g.terms.items():
                if not any(_hasbv(ATOMS[aid], lv) for aid, e in m):
                    keep[m] = c
                    continue
                t = None
                rest = []
                for aid, e in m:
                    a = ATOMS[aid]
                    if _hasbv(a, lv):
                        x = _inst_atom(a, lv, val, memo)
                        if e != 1:
                            x = lift(lambda y, e=e: p_pow(y, e) if isinstance(y, Poly) else y, x)
                        t = x if t is None else g_mul(t, x)
                    else:
                        rest.append((aid, e))
                t = g_mul(mkp({tuple(rest): c}), t)
                acc = t if acc is None else g_add(acc, t)
            kp = mkp(keep)
            r = kp if acc is None else g_add(kp, acc)
            memo[k] = r
        return r
    if isinstance(g, DD):
        k = ('D', g.id)
        r = memo.get(k)
        if r is None:
            br = [_inst(b, lv, val, memo) for b in g.br]
            c = g.c
            if not _hasbv_any(c.arg, lv):
                r = split(c, br)
            elif c.kind == 's':
                r = lift3(_inst(c.arg, lv, val, memo), br)
            else:
                r = ite(_inst_pred(c.arg, lv, val, memo), br[1], br[0])
            memo[k] = r
        return r
    if isinstance(g, tuple):
        return _retup(g, [_inst(x, lv, val, memo) for x in g])
    return g


_hasbv_memo = {}


def _hasbv(a, lv):
    k = (a.id, lv)
    r = _hasbv_memo.get(k)
    if r is None:
        if a.kind == 'bv':
            r = a.args[0] == lv
        elif a.kind == 'sym':
            r = False
        else:
            r = any(_hasbv_any(x, lv) for x in a.args)
        _hasbv_memo[k] = r
    return r


def _hasbv_any(x, lv):
    if isinstance(x, Atom):
        return _hasbv(x, lv)
    if isinstance(x, Poly):
        return any(_hasbv(ATOMS[aid], lv) for m in x.terms for aid, e in m)
    if isinstance(x, DD):
        return _hasbv_any(x.c.arg, lv) or any(_hasbv_any(b, lv) for b in x.br)
    if isinstance(x, tuple):
        return any(_hasbv_any(y, lv) for y in x)
    return False


def _inst_atom(a, lv, val, memo):
    if a.kind == 'bv':
        return val
    if a.kind == 'poly':
        return _inst(a.args[0], lv, val, memo)
    if a.kind in ('sin', 'cos', 'exp'):
        f = {'sin': g_sin, 'cos': g_cos, 'exp': g_exp}[a.kind]
        return f(_inst(a.args[0], lv, val, memo))
    if a.kind == 'app':
        return rebuild_app(a.args[0], [_inst(x, lv, val, memo) for x in a.args[1]], a.info)
    if a.kind == 'sum':
        n, body = a.args
        n2 = _inst(n, lv, val, memo)
        return mk_sum_from(n2, lambda v: _inst(inst(body, v), lv, val, {}))
    if a.kind == 'lam':
        n, body = a.args
        n2 = _inst(n, lv, val, memo)
        v = index(n2)
        return apoly(mk_lam(v, n2, _inst(inst(body, v), lv, val, {})))
    raise AssertionError(a.kind)


def _inst_pred(a, lv, val, memo):
    if a.kind == 'bv':
        raise AssertionError
    args = [_inst(x, lv, val, memo) for x in a.args[1]]
    f = REBUILD.get(a.args[0])
    if f is not None:
        return f(*args)
    return papp(a.args[0], *args)


def mk_lam(v, n, body):
    b, lv = abstract(v, body)
    return mk_atom('lam', n, b)


def mk_sum_from(n, f):
    if isinstance(n, DD):
        return split(n.c, [mk_sum_from(b, f) for b in n.br])
    if isinstance(n, Opaque):
        return n
    c = n.const()
    if c is not None and c <= 64:
        acc = ZERO
        for i in range(int(c)):
            acc = g_add(acc, f(const(i)))
        return acc
    v = index(n)
    return mk_sum(v, n, f(apoly(v)))


def mk_sum(v, n, body):
    """sum of body for v in [0, n)"""
    if isinstance(body, Opaque):
        return body
    c = n.const()
    if c is not None and c <= 64:
        acc = ZERO
        for i in range(int(c)):
            acc = g_add(acc, subst(body, {v.id: const(i)}))
        return acc
    if isinstance(body, DD):
        # hoist conditions that do not depend on v
        cc = _indep_cond(body, v)
        if cc is not None:
            return split(cc, [mk_sum(v, n, cofd(body, cc, i)) for i in range(cc.n)])
        # split the range at a sign test that is linear in v
        sp = _range_split(body, v, n)
        if sp is not None:
            return sp
        if not isinstance(body, DD):
            return mk_sum(v, n, body)
        b = body
        lowest = leaves(body)
        if any(isinstance(x, Opaque) for x in lowest):
            return [x for x in lowest if isinstance(x, Opaque)][0]
        bb, lv = abstract(v, b)
        return apoly(mk_atom('sum', n, bb))
    body = num(body) if not isinstance(body, Poly) else body
    if body is None:
        return Opaque('sum of non-numbers')
    # unflatten k -> i*M + j when the body is written with k//M, k%M
    M = _flat_modulus(body, v, n)
    if M is not None:
        N = exact_div(n, M)
        return mk_sum_from(N, lambda i: mk_sum_from(M, lambda j: subst(body, {v.id: g_add(g_mul(i, M), j)})))
    acc = ZERO
    groups = {}
    for m, c in body.terms.items():
        ind = []
        dep = []
        for aid, e in m:
            (dep if v.id in ATOMS[aid].free else ind).append((aid, e))
        groups.setdefault(tuple(dep), []).append((tuple(ind), c))
    for dep, lst in groups.items():
        co = ZERO
        for ind, c in lst:
            co = padd(co, mkp({ind: c}))
        if not dep:
            s = n
        elif dep == ((v.id, 1),):
            s = pscale(n * (n - 1), Q(1, 2))
        elif dep == ((v.id, 2),):
            s = pscale(n * (n - 1) * (2 * n - 1), Q(1, 6))
        else:
            bb, lv = abstract(v, mkp({dep: 1}))
            s = apoly(mk_atom('sum', n, bb))
        acc = padd(acc, pmul(co, s))
    return acc


def _flat_modulus(body, v, n):
    for aid in {aid for m in body.terms for aid, e in m}:
        a = ATOMS[aid]
        if v.id not in a.free:
            continue
        M = _find_mod(a, v)
        if M is not None and exact_div(n, M) is not None and v.id not in M.free:
            return M
    return None


def _find_mod(a, v, depth=0):
    if depth > 6:
        return None
    if a.kind == 'app' and a.args[0] in ('fdiv', 'mod') and a.args[1][0].single() is v:
        return a.args[1][1]
    for x in (a.args[1] if a.kind == 'app' else a.args):
        if isinstance(x, Poly) and v.id in x.free:
            for m in x.terms:
                for aid, e in m:
                    b = ATOMS[aid]
                    if v.id in b.free:
                        r = _find_mod(b, v, depth + 1)
                        if r is not None:
                            return r
    return None


def cofd(g, c, i, memo=None):
    """cofactor of g for branch i of c, wherever c is tested"""
    if not isinstance(g, DD):
        return g
    if memo is None:
        memo = {}
    r = memo.get(g.id)
    if r is None:
        if g.c is c:
            r = cofd(g.br[i], c, i, memo)
        elif g.c.id > c.id:
            r = g
        else:
            r = mk_node(g.c, [cofd(b, c, i, memo) for b in g.br])
        memo[g.id] = r
    return r


def _indep_cond(g, v, seen=None):
    if not isinstance(g, DD):
        return None
    if seen is None:
        seen = set()
    if g.id in seen:
        return None
    seen.add(g.id)
    if v.id not in g.c.free:
        return g.c
    for b in g.br:
        r = _indep_cond(b, v, seen)
        if r is not None:
            return r
    return None


def _range_split(body, v, n):
    c = body.c
    if c.kind != 's':
        return None
    co, rest = _lin(c.arg, v)
    if co is None or co.const() is None or co.const() == 0:
        return None
    r = pscale(rest, -Q(1) / co.const())        # root
    if any(Q(x).denominator != 1 for x in r.terms.values()):
        return None
    if not (_nonneg(r, False) and _nonneg(n - r, False)):
        return None
    lo, mid, hi = (0, 1, 2) if co.const() > 0 else (2, 1, 0)
    below = cofd(body, c, lo)
    above = cofd(body, c, hi)
    at = cofd(body, c, mid)
    out = mk_sum_from(r, lambda i: subst(below, {v.id: i}))
    if _nonneg(n - r - 1, False):
        out = g_add(out, subst(at, {v.id: r}))
        out = g_add(out, mk_sum_from(n - r - 1, lambda i: subst(above, {v.id: g_add(i, r + 1)})))
        return out
    if r is n:
        return out
    return None


# ---- printing -------------------------------------------------------------------------------------------------------
def show(g, limit=400):
    s = _show(g, 0)
    return s if len(s) <= limit else s[:limit] + '...'


def _show(g, d):
    if d > 8:
        return '..'
    if isinstance(g, Poly):
        if not g.terms:
            return '0'
        parts = []
        for m, c in sorted(g.terms.items(), key=lambda t: t[0])[:12]:
            fs = []
            for aid, e in m:
                s = show_atom(ATOMS[aid], d + 1)
                if e != 1:
                    s += '^%s' % (e if isinstance(e, int) and e > 0 else '(%s)' % e)
                fs.append(s)
            if not fs:
                parts.append('%s' % c)
            elif c == 1:
                parts.append('*'.join(fs))
            elif c == -1:
                parts.append('-' + '*'.join(fs))
            else:
                parts.append('%s*%s' % (c, '*'.join(fs)))
        if len(g.terms) > 12:
            parts.append('...(%d terms)' % len(g.terms))
        return ' + '.join(parts).replace('+ -', '- ')
    if isinstance(g, DD):
        if g.c.kind == 's':
            return '{%s <0: %s | =0: %s | >0: %s}' % ((_show(g.c.arg, d + 1),) + tuple(_show(b, d + 1) for b in g.br))
        return '{%s ? %s : %s}' % (show_atom(g.c.arg, d + 1), _show(g.br[1], d + 1), _show(g.br[0], d + 1))
    return repr(g)


def show_atom(a, d=0):
    if a.kind == 'sym':
        return a.args[0].split('#')[0]
    if a.kind == 'bv':
        return 'β%d' % a.args[0]
    if a.kind == 'poly':
        return '(%s)' % _show(a.args[0], d + 1)
    if a.kind in ('sin', 'cos', 'exp'):
        return '%s(%s)' % (a.kind, _show(a.args[0], d + 1))
    if a.kind == 'app':
        if a.args[0].startswith('el:'):
            return '%s[%s]' % (a.args[0][3:], ','.join(_show(x, d + 1) for x in a.args[1]))
        return '%s(%s)' % (a.args[0], ', '.join(_show(x, d + 1) for x in a.args[1]))
    if a.kind == 'sum':
        return 'Σ[%s](%s)' % (_show(a.args[0], d + 1), _show(a.args[1], d + 1))
    if a.kind == 'lam':
        return 'λ[%s](%s)' % (_show(a.args[0], d + 1), _show(a.args[1], d + 1))
    return a.kind


# facts about a fresh instance of an index
def fresh_like(a, lo=None, hi=None):
    return sym(a.args[0].split('#')[0], sign=None if (lo is not None and sign_of(lo) not in ('+', '0+', '0')) else
               ('+' if lo is not None and sign_of(lo) == '+' else '0+'), integer=True,
               lo=lo if lo is not None else a.info.get('lo'), hi=hi if hi is not None else a.info.get('hi'), uniq=True)


REBUILD['*'] = lambda a, b: g_mul(a, b)
