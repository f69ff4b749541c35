"""Obligations, reports and evidence shared by the property checks.

Every check abstractly interprets the current source of the repository (sa.interp) over symbolic value numbers and
states obligations about the values, effects and conditions it computes.  Nothing of the repository is executed.
"""
import ast
import hashlib
import json
import os
import sys
import time

import numpy as np

from .terms import *
from .values import *
from .interp import Interp, parse_file, Unsupported
from .prove import Prover, Verdict, worst, Env, Undefined

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PKG = 'pySailingVLM'


class Broken(Exception):
    """the analysis itself cannot give an answer (an anchor vanished, ...)"""


# ---- symbolic inputs ------------------------------------------------------------------------------------------------
_NAMES = {}


def sc(name, sign=None, rng=None, **k):
    # one name, one assumption: the same name with another sign or range is another symbol
    known = _NAMES.setdefault(name, [])
    key = (sign, rng, tuple(sorted(k.items())))
    if key not in known:
        known.append(key)
    a = sym(name + "'" * known.index(key), sign=sign, **k)
    if rng is not None:
        a.info['rng'] = rng
        if sign is None and rng[0] >= 0 and 'sign' in a.info:
            a.info['sign'] = '+' if rng[0] > 0 else '0+'
    return apoly(a)


def tensor(name, shape, sign=None, signs=None, dt='f', rng=None):
    """array of independent symbols name[i,j..]; signs: dict last-index -> sign"""
    a = np.empty(shape, dtype=object)
    for idx in np.ndindex(*shape):
        s = sign
        if signs is not None and idx and idx[-1] in signs:
            s = signs[idx[-1]]
        a[idx] = sc('%s[%s]' % (name, ','.join(map(str, idx))), sign=s, rng=rng)
    return Arr(a, dt)


def vec(name, signs=None):
    a = np.empty(3, dtype=object)
    for i, c in enumerate('xyz'):
        a[i] = sc('%s.%s' % (name, c), sign=(signs or {}).get(i))
    return Arr(a, 'f')


def arr(x, dt='f'):
    """Arr from nested python numbers / polys"""
    a = np.array(x, dtype=object)
    b = np.empty(a.shape, dtype=object)
    for idx in np.ndindex(*a.shape):
        v = a[idx]
        b[idx] = v if isinstance(v, (Poly, DD, bool)) else P(v)
    return Arr(b, dt)


def barr(x):
    a = np.array(x, dtype=object)
    return Arr(a, 'b')


def npa(v):
    """object ndarray view of a value"""
    if isinstance(v, Arr):
        return v.a
    if isinstance(v, np.ndarray):
        return v
    if isinstance(v, PyList):
        t = v.v
        if isinstance(t, DD):
            return None
        xs = [npa(x) for x in t]
        if any(x is None for x in xs):
            return None
        if len({x.shape for x in xs}) > 1:
            return None
        r = np.empty((len(xs),) + (xs[0].shape if xs else ()), dtype=object)
        for i, x in enumerate(xs):
            r[i] = x if x.shape else x[()]
        return r
    if isinstance(v, (tuple, list)):
        return npa(PyList(list(v)))
    r = np.empty((), dtype=object)
    r[()] = v
    return r


# ---- vector algebra on object arrays (specification side) -------------------------------------------------------------
def cross(a, b):
    r = np.empty(3, dtype=object)
    for i in range(3):
        j, k = (i + 1) % 3, (i + 2) % 3
        r[i] = g_sub(g_mul(a[j], b[k]), g_mul(a[k], b[j]))
    return r


def dot(a, b):
    r = ZERO
    for x, y in zip(a, b):
        r = g_add(r, g_mul(x, y))
    return r


def vadd(*vs):
    r = np.empty(len(vs[0]), dtype=object)
    for i in range(len(vs[0])):
        s = ZERO
        for v in vs:
            s = g_add(s, v[i])
        r[i] = s
    return r


def vsub(a, b):
    return np.array([g_sub(x, y) for x, y in zip(a, b)] + [None], dtype=object)[:-1]


def vscale(a, c):
    return np.array([g_mul(x, c) for x in a] + [None], dtype=object)[:-1]


def norm(a):
    return g_sqrt(dot(a, a))


def gsum(xs):
    r = ZERO
    for x in xs:
        r = g_add(r, x)
    return r


def gt(a, b):
    d = g_sub(b, a)
    return d if isinstance(d, Opaque) else cmp_lt(d) if not isinstance(d, DD) else lift(lambda l: l if isinstance(l, Opaque) else False if l is NAN else cmp_lt(num(l)), d)


def ge(a, b):
    d = g_sub(a, b)
    return d if isinstance(d, Opaque) else ge0(d) if not isinstance(d, DD) else lift(lambda l: l if isinstance(l, Opaque) else False if l is NAN else ge0(num(l)), d)


def half(x):
    return g_mul(x, P(Q(1, 2)))


def d2r(x):
    return g_mul(g_mul(x, PIP), P(Q(1, 180)))


def r2d(x):
    return g_div(g_mul(x, P(180)), PIP)


# ---- contracts ------------------------------------------------------------------------------------------------------
def tkey(t):
    return tuple(x.id if isinstance(x, (Poly, DD)) else str(x) for x in t)


def VL(p, a, b):
    """Biot-Savart field at p of the unit segment from a to b (three value numbers), antisymmetric in a, b"""
    p, a, b = tuple(p), tuple(a), tuple(b)
    if tkey(a) == tkey(b):
        return np.array([ZERO] * 3, dtype=object)
    s = 1
    if tkey(b) < tkey(a):
        a, b, s = b, a, -1
    return np.array([g_mul(P(s), app('VL', P(i), p, a, b)) for i in range(3)], dtype=object)


def VI(p, a, d):
    """field at p of the unit semi-infinite filament from a in the direction of d; only the direction of d matters"""
    p, a, d = tuple(p), tuple(a), tuple(d)
    d = unit_direction(d)
    return np.array([app('VI', P(i), p, a, d) for i in range(3)], dtype=object)


def unit_direction(d):
    """divide out a common positive factor of the components"""
    if not all(isinstance(x, Poly) for x in d):
        return d
    nz = [x for x in d if x.terms]
    if not nz:
        return d
    common = None
    for x in nz:
        for m in x.terms:
            mm = {aid: e for aid, e in m}
            if common is None:
                common = mm
            else:
                common = {aid: min(e, mm[aid]) for aid, e in common.items() if aid in mm and (e > 0) == (mm[aid] > 0)}
    f = {}
    for aid, e in (common or {}).items():
        if atom_sign(ATOMS[aid]) == '+':
            f[aid] = -e
    if not f:
        return d
    inv = mkp({tuple(sorted(f.items())): 1})
    return tuple(pmul(x, inv) for x in d)


def argmap(f, args, kw):
    names = [x.arg for x in f.node.args.posonlyargs + f.node.args.args]
    env = dict(zip(names, args))
    env.update(kw)
    nd = len(f.defaults)
    for i, n in enumerate(names):
        if n not in env:
            j = i - (len(names) - nd)
            if j < 0:
                return None
            env[n] = f.defaults[j]
    return [env[n] for n in names]


def _v3(I, x):
    a = I.asarray(x)
    if not isinstance(a, Arr) or a.a.size != 3:
        return None
    return list(a.a.ravel())


def cut_line(I, f, args, kw):
    xs = argmap(f, args, kw)
    if xs is None or len(xs) != 4:
        return NotImplemented
    p, a, b = (_v3(I, x) for x in xs[:3])
    if p is None or a is None or b is None:
        return NotImplemented
    g = I.scalar(xs[3]) if hasattr(I, 'scalar') else xs[3]
    return I.mkarr(np.array([g_mul(x, g) for x in VL(p, a, b)], dtype=object))


def cut_inf(I, f, args, kw):
    xs = argmap(f, args, kw)
    if xs is None or len(xs) != 4:
        return NotImplemented
    p, a, d = (_v3(I, x) for x in xs[:3])
    if p is None or a is None or d is None:
        return NotImplemented
    return I.mkarr(np.array([g_mul(x, xs[3]) for x in VI(p, a, d)], dtype=object))


# ---- naming intermediate results ----------------------------------------------------------------------------------------
def let(g, size=2):
    """an atom standing for the value g (kept opaque by the normal form, evaluated by random interpretation)"""
    def leaf(p):
        if not isinstance(p, Poly) or len(p.terms) <= size:
            return p
        s = sign_of(p)
        return apoly(mk_atom('app', 'let', (p,), sign=s if s in ('+', '0+') else None))
    return lift(leaf, g)


REBUILD['let'] = let


def unlet(g):
    """the value behind a name (one level)"""
    def leaf(p):
        if isinstance(p, Poly) and len(p.terms) == 1:
            (m, c), = p.terms.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                a = ATOMS[m[0][0]]
                if a.kind == 'app' and a.args[0] == 'let':
                    return a.args[1][0]
        return p
    return lift(leaf, g) if isinstance(g, (Poly, DD)) and not has_obj(g) else g


def let_val(I, v, size=2):
    if isinstance(v, Arr):
        if v.dt in ('f', 'i', 'O') and any(isinstance(x, (Poly, DD)) for x in v.a.flat):
            for idx in np.ndindex(*v.a.shape):
                x = v.a[idx]
                if isinstance(x, Poly) or isinstance(x, DD) and not has_obj(x):
                    v.a[idx] = let(x, size)
        return v
    if isinstance(v, tuple):
        return tuple(let_val(I, x, size) for x in v)
    if isinstance(v, PyList) and isinstance(v.v, tuple):
        v.v = tuple(let_val(I, x, size) for x in v.v)
        return v
    if isinstance(v, Poly):
        return let(v, size)
    if isinstance(v, DD) and not has_obj(v):
        return let(v, size)
    return v


def cut_let(I, f, args, kw):
    """interpret the function, then name its results"""
    c = I.cuts.pop(f.qual)
    try:
        r = I.call_func(f, args, kw)
    finally:
        I.cuts[f.qual] = c
    return let_val(I, r)


COEFS = PKG + '.solver.coefs.'
CUTS_LET = {COEFS + 'calculate_vlm_variables': cut_let, COEFS + 'calc_velocity_coefs': cut_let,
            PKG + '.solver.panels.get_panels_area': cut_let, COEFS + 'calculate_RHS': cut_let,
            COEFS + 'calculate_normals_collocations_cps_rings_spans_leading_trailing_mid_points': cut_let,
            PKG + '.solver.velocity.calculate_app_fs': cut_let}

VEL = PKG + '.solver.velocity.'
CUTS_VORTEX = {VEL + 'vortex_line': cut_line, VEL + 'vortex_infinite_line': cut_inf}


def ring_spec(p, A, B, C, D, g):
    v = vadd(VL(p, A, B), VL(p, B, C), VL(p, C, D), VL(p, D, A))
    return vscale(v, g)


def shoe_spec(p, B, C, V, g):
    return vscale(vadd(VL(p, B, C), VI(p, C, V), vscale(VI(p, B, V), P(-1))), g)


def shoe2_spec(p, A, B, C, D, V, g):
    return vscale(vadd(VL(p, A, B), VL(p, B, C), VL(p, C, D), VI(p, D, V), vscale(VI(p, A, V), P(-1))), g)


# ---- the check --------------------------------------------------------------------------------------------------------
class Ob:
    __slots__ = ('rule', 'inst', 'kind', 'detail', 'loc', 'witness', 'paths', 'extra')

    def __init__(self, rule, inst, kind, detail='', loc=None, witness=None, paths=1):
        self.rule, self.inst, self.kind, self.detail, self.loc, self.witness, self.paths = \
            rule, inst, kind, detail, loc, witness, paths


class Ctx:
    def __init__(self, pid, tier='quick', seed=1, repo=None):
        self.pid = pid
        self.tier = tier
        self.seed = seed
        self.repo = repo or REPO
        self.prover = Prover(seed)
        self.obs = []
        self.interps = []
        self.anchors = {}
        self.analysed = set()
        self.broken, self.incomplete = [], []
        self._sampleable = {}
        self.assumptions = []
        self.t0 = time.time()

    @property
    def thorough(self):
        return self.tier == 'thorough'

    # ---- analysis
    def interp(self, cuts=None):
        I = Interp(self.repo, cuts)
        self.interps.append(I)
        return I

    def get(self, I, dotted):
        if not dotted.startswith(PKG):
            dotted = PKG + '.' + dotted
        o = I.get(dotted)
        if o is None:
            raise Broken('anchor %s not found' % dotted)
        node = getattr(o, 'node', None)
        if isinstance(o, FuncVal):
            self.anchors[dotted] = '%s:%d' % (os.path.relpath(o.module.path, self.repo), node.lineno)
        elif isinstance(o, ClassVal):
            self.anchors[dotted] = '%s:%d' % (os.path.relpath(o.module.path, self.repo), node.lineno) if node is not None else dotted
        return o

    def call(self, I, dotted, *args, **kw):
        f = self.get(I, dotted) if isinstance(dotted, str) else dotted
        I.pc = True
        I.raises[:] = [[]]
        r = I.run(f, *args, **kw)
        return I.simp(r) if isinstance(r, DD) else r

    def attr(self, I, o, name, need=True):
        n = len(I.raises[0])
        pc = I.pc
        r = I.getattr_(o, name)
        if isinstance(r, Bound) and isinstance(r.fn, FuncVal):
            self.anchors[r.fn.qual] = '%s:%d' % (os.path.relpath(r.fn.module.path, self.repo), r.fn.node.lineno)
        if r is UNSET or I.pc is False:
            I.pc = pc
            del I.raises[0][n:]
            if need:
                return UNSET
        return r

    def methloc(self, m):
        return self.anchors.get(m.fn.qual) if isinstance(m, Bound) and isinstance(m.fn, FuncVal) else None

    # ---- provenance
    def locof(self, I, v, default=None):
        if isinstance(v, (Poly, DD)) and I is not None:
            p = I.prov.get((type(v).__name__, v.id))
            if p is not None:
                return '%s (%s)' % (I.fmtloc(p[0]), p[1].replace(PKG + '.', ''))
        return default

    def anchorloc(self, name):
        if name and not name.startswith(PKG):
            name = PKG + '.' + name
        return self.anchors.get(name, name)

    # ---- obligations
    def add(self, rule, inst, verdict, detail='', loc=None, witness=None, paths=1):
        self.obs.append(Ob(rule, inst, verdict, detail, loc, witness, paths))
        return verdict

    def fact(self, rule, inst, ok, detail='', loc=None):
        """a structural obligation decided by the caller: True holds, False violated, None undecided"""
        return self.add(rule, inst, 'proved' if ok is True else 'refuted' if ok is False else 'unknown', detail, loc)

    def eq(self, rule, inst, got, want, assume=True, loc=None, I=None, name=''):
        """element-wise equality of values; got/want may be numbers, gated values, strings, arrays, lists"""
        g, w = npa(got), npa(want)
        if got is UNSET or isinstance(got, Opaque):
            return self.add(rule, inst, 'unknown', 'value not available: %s' % (got,), loc)
        if isinstance(got, DD) and has_obj(got):
            # same obligation for every alternative
            worst_ = 'proved'
            for c, l in cases(got):
                k = self.eq(rule, inst, l, want, g_and(c, assume) if assume is not True else c, loc, I, name)
                if k == 'refuted':
                    return k
                worst_ = k if worst_ == 'proved' else worst_
            return worst_
        if g is None or w is None:
            return self.add(rule, inst, 'unknown', 'not an array of numbers', loc)
        if g.shape != w.shape:
            return self.add(rule, inst, 'refuted', 'has shape %s, expected %s' % (g.shape, w.shape), loc)
        vs = []
        bad = None
        for idx in np.ndindex(*g.shape):
            x, y = g[idx], w[idx]
            if isinstance(x, DD) and I is not None and I.pc is not False:
                x = I.simp(x)       # what an exception prevents from being seen is no alternative
            v = self.equal(x, y, assume)
            vs.append(v)
            if v.kind == 'refuted':
                bad = (idx, x, v)
                break
        v = worst(vs) if vs else Verdict('proved')
        d = v.detail
        if bad is not None:
            d = '%s%s %s' % (name or 'value', list(bad[0]) if bad[0] else '', bad[2].detail)
            loc = self.locof(I, bad[1], None) or loc
        return self.add(rule, inst, v.kind, d, loc, v.witness, max(v.paths, 1))

    def equal(self, x, y, assume=True):
        if isinstance(x, Opaque) and x.why == 'division by zero' and isinstance(y, Poly):
            return Verdict('refuted', 1, 'divides by zero, expected %s' % show(y, 300))
        if isinstance(x, (Poly, DD)) and same(x, y):
            return Verdict('proved', 1)
        x2 = unlet(x)
        if x2 is not x:
            if same(x2, y):
                return Verdict('proved', 1)
            x = x2
        if assume is not True:
            # equal everywhere is stronger than equal under the assumption
            v = self.prover.equal(x, y)
            if v.kind in ('proved', 'agree') and self.prover.reached:
                return v
        v = self.prover.equal(x, y, assume)
        if v.kind in ('proved', 'agree') and not self.prover.reached:
            return Verdict('unknown', v.paths, 'no alternative could be reached: nothing was compared')
        if v.kind == 'agree' and not self.sampleable(assume):
            return Verdict('unknown', v.paths, 'no point satisfying the assumption was found')
        return v

    def sampleable(self, assume):
        """random interpretation reaches the assumption at all (otherwise agreement under it would be empty)"""
        if assume is True:
            return True
        k = getattr(assume, 'id', None)
        if k not in self._sampleable:
            self._sampleable[k] = any(True for _ in self.prover.samples([], {}, assume, 1))
        return self._sampleable[k]

    def never(self, rule, inst, cond, assume=True, loc=None, detail='', I=None):
        if isinstance(cond, Opaque):
            return self.add(rule, inst, 'unknown', str(cond), loc)
        v = self.prover.equal(cond, False, assume)
        return self.add(rule, inst, v.kind, detail + (' ' + v.detail if v.kind == 'refuted' and v.witness is None else ''), loc, v.witness, v.paths)

    def always(self, rule, inst, cond, assume=True, loc=None, detail='', I=None):
        if isinstance(cond, Opaque):
            return self.add(rule, inst, 'unknown', str(cond), loc)
        v = self.prover.equal(cond, True, assume)
        return self.add(rule, inst, v.kind, detail, loc, v.witness, v.paths)

    def no_raise(self, rule, inst, I, assume=True):
        """valid input: nothing is raised, and what the code itself asserts about its values is true of them"""
        bad = self.self_checks(rule, inst, I, assume)
        if not I.raises[0]:
            return bad or self.add(rule, inst, 'proved')
        r = bad or 'proved'
        for pc, e, loc, q in I.raises[0]:
            k = self.never(rule, inst, pc, assume, '%s (%s)' % (I.fmtloc(loc), q), 'raises %s' % exc_str(e))
            if k != 'proved' and r != 'refuted':
                r = k
        return r

    def self_checks(self, rule, inst, I, assume=True):
        """the np.testing.assert_… calls of the code: an AssertionError ends a run on valid input"""
        r = None
        done = I.__dict__.setdefault('asserts_done', 0)
        I.asserts_done = len(I.events)
        for e in I.events[done:]:
            if e.kind != 'np_assert' or len(e.data['args']) < 2 or e.pc is False:
                continue
            what, a, b = e.data['what'], e.data['args'][0], e.data['args'][1]
            if what == 'assert_':
                continue
            g, w = npa(a), npa(b)
            if g is None or w is None or any(isinstance(x, Opaque) for y in (g, w) for x in np.array(y, dtype=object).ravel()):
                continue
            if g.shape != w.shape:
                try:
                    sh = np.broadcast_shapes(g.shape, w.shape)
                except ValueError:
                    sh = None
                if sh is not None and () in (g.shape, w.shape):
                    g, w = np.broadcast_to(g, sh), np.broadcast_to(w, sh)
            pc = e.pc if assume is True else g_and(e.pc, assume)
            g, w = (np.frompyfunc(lambda x: restrict(x, e.pc) if isinstance(x, DD) and isinstance(e.pc, DD) else x, 1, 1)(np.array(y, dtype=object)) for y in (g, w))
            k = self.eq(rule, '%s, %s' % (inst, what), Arr(np.array(g, dtype=object), 'f'), Arr(np.array(w, dtype=object), 'f'), pc,
                        '%s (%s)' % (I.fmtloc(e.loc), e.fn))
            if k == 'refuted':
                r = k
        return r

    # ---- finish
    def finish(self, title, rule_text, min_obligations, known, level='other'):
        viol, und = {}, {}
        n = {'proved': 0, 'agree': 0, 'unknown': 0, 'refuted': 0}
        byrule = {}
        for o in self.obs:
            n[o.kind] += 1
            r = byrule.setdefault(o.rule, {'proved': 0, 'agree': 0, 'unknown': 0, 'refuted': 0})
            r[o.kind] += 1
            if o.kind == 'refuted':
                viol.setdefault(o.rule, []).append(o)
            elif o.kind == 'unknown':
                und.setdefault(o.rule, []).append(o)
        fns = set()
        st = 0
        lines = set()
        for I in self.interps:
            fns |= {x.replace(PKG + '.', '') for x in I.funcs}
            lines |= I.visited
            st += I.stmts
        cov = dict(
            explanation='%s Decided by abstract interpretation of the current source over gated value numbers (no execution): '
                        '%d obligations over %d anchors; %d identical normal forms, %d equal by random interpretation of the '
                        'value graphs, %d undecided, %d violated.' % (rule_text, len(self.obs), len(self.anchors), n['proved'],
                                                                     n['agree'], n['unknown'], n['refuted']),
            obligations=len(self.obs), proved=n['proved'], agree_random_interpretation=n['agree'], undecided=n['unknown'],
            violated=n['refuted'], rules={k: v for k, v in sorted(byrule.items())}, anchors=self.anchors,
            statements_interpreted=st, functions_interpreted=len(fns),
            functions=sorted(fns)[:200], source_lines_reached=len(lines),
            not_analysed=[b[:300] for b in self.incomplete],
            undecided_samples=['%s | %s | %s' % (o.rule, o.inst, o.detail) for v in und.values() for o in v[:2]][:20],
            samples=['%s | %s | %s' % (o.rule, o.inst, o.kind) for o in self.obs[:: max(1, len(self.obs) // 12)]][:14])
        unlisted, listed = [], []
        for rule, os_ in viol.items():
            for o in os_:
                k = known_match(known, self.pid, o)
                (listed if k else unlisted).append((o, k))
        rc = 0
        out = []
        seen = set()
        for o, k in listed:
            if k['text'] not in seen:
                seen.add(k['text'])
                out.append('KNOWN-FINDING: property=%s %s' % (self.pid, k['text']))
        replay = os.path.join(VERIF, 'evidence', '%s.report.txt' % self.pid)
        os.makedirs(os.path.dirname(replay), exist_ok=True)
        with open(replay, 'w') as f:
            f.write('%s %s\n%s\ntier=%s seed=%d repo=%s\n' % (self.pid, title, '=' * 70, self.tier, self.seed, self.repo))
            for o, k in listed:
                f.write('KNOWN %s | %s | %s | %s\n' % (o.rule, o.inst, o.loc, o.detail))
            for o, k in unlisted:
                f.write('VIOLATION rule=%s instance=%s at=%s\n    %s\n' % (o.rule, o.inst, o.loc, o.detail))
                if o.witness:
                    f.write('    witness: %s\n' % json.dumps(o.witness, default=str)[:2000])
            for v in und.values():
                for o in v:
                    f.write('UNDECIDED %s | %s | %s | %s\n' % (o.rule, o.inst, o.loc, o.detail))
            for b in self.broken:
                f.write('BROKEN %s\n' % b)
        if unlisted:
            rc = 1
            out.append('VIOLATION property=%s replay=%s' % (self.pid, replay))
            shown = set()
            for o, k in unlisted:
                if o.rule in shown:
                    continue
                shown.add(o.rule)
                out.append('  rule %s, instance %s, at %s: %s' % (o.rule, o.inst, o.loc, (o.detail or '')[:600]))
        else:
            # rules for which nothing could be decided are reported as undecided; when that is most of the check, it gave no answer
            dead = [r for r, c in byrule.items() if c['unknown'] and not c['proved'] and not c['agree']]
            dead = dead if 2 * len(dead) > len(byrule) or 2 * n['unknown'] > len(self.obs) else []
            few = min_obligations if not self.incomplete else min_obligations // 2
            if self.broken:
                rc = 2
                out += ['ANALYSIS-BROKEN property=%s %s' % (self.pid, b) for b in self.broken]
            elif len(self.obs) < few:
                rc = 2
                out.append('ANALYSIS-BROKEN property=%s only %d obligations, expected at least %d' % (self.pid, len(self.obs), min_obligations))
            elif dead:
                rc = 2
                out.append('ANALYSIS-BROKEN property=%s nothing decided for %s' % (self.pid, ', '.join(dead)))
        for b in self.incomplete:
            out.append('  undecided: %s' % b.replace('\n', ' | ')[:600])
        for r, v in sorted(und.items()):
            out.append('  undecided: %s x%d (%s: %s)' % (r, len(v), v[0].inst, (v[0].detail or '')[:200]))
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=level, coverage=cov,
                  wall_s=round(time.time() - self.t0, 2), assumptions=self.assumptions, violations=len(unlisted))
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        out.append('%s: %d obligations, %d proved, %d agree, %d undecided, %d violated (%d known), %.1f s' % (
            self.pid, len(self.obs), n['proved'], n['agree'], n['unknown'], n['refuted'], len(listed), time.time() - self.t0))
        print('\n'.join(out))
        return rc


def exc_str(e):
    if isinstance(e, ExcVal):
        c = e.cls if isinstance(e.cls, str) else getattr(e.cls, 'name', '?')
        return '%s(%s)' % (c, ', '.join(str(a)[:120] for a in e.args))
    return str(e)


def known_match(known, pid, o):
    for k in known:
        if k['property'] == pid and k['rule'] == o.rule and (k['inst'] == '*' or k['inst'] == o.inst):
            return k
    return None
