"""A symbolic boat: every setting of the case file is its own symbol; the specified rig and sails."""
from props.geometry import *
from sa.npmodel import basis, hat_exact

RC = 'runner.container.'
TABLES = ('chords', 'centerline_twist_deg', 'camber', 'camber_distance_from_luff')
RANGES = {'chords': (1, 4), 'centerline_twist_deg': (-20, 30), 'camber': (0.01, 0.2), 'camber_distance_from_luff': (0.2, 0.8)}
NODES = {'jib': [Q(0), Q(1, 5), Q(1, 2), Q(4, 5), Q(1)], 'main': [Q(0), Q(1, 7), Q(2, 5), Q(3, 5), Q(6, 7), Q(1)]}
SAIL_NAMES = {'jib': ['jib'], 'main': ['main_sail'], 'jib_and_main': ['jib', 'main_sail']}


class Boat:
    pass


def table(kind, t, n):
    return tensor('%s.%s' % (kind, t), (n,), rng=RANGES[t])


def boat(nodes=None):
    b = Boat()
    b.rig = dict(main_sail_luff=sc('main_sail_luff', '+'), jib_luff=sc('jib_luff', '+'), foretriangle_height=sc('J.height', '+', rng=(8, 12)),
                 foretriangle_base=sc('J.base', '+', rng=(2.5, 5)), sheer_above_waterline=sc('sheer', '+', rng=(0.5, 2)),
                 boom_above_sheer=sc('boom', '+', rng=(0.5, 2)), rake_deg=sc('rake', rng=(84, 115)), mast_LOA=sc('mast', '+', rng=(0.05, 0.4)))
    b.nodes = nodes or NODES
    b.sail = {}
    for k in ('jib', 'main'):
        n = len(b.nodes[k])
        b.sail[k] = {t: table(k, t, n) for t in TABLES}
        b.sail[k]['girths'] = arr([P(x) if isinstance(x, Q) else x for x in b.nodes[k]])
    b.heel, b.lee = sc('heel', rng=(-30, 30)), sc('leeway', rng=(-20, 20))
    b.ref = vec('ref')
    return b


def copy_table(a):
    return Arr(a.a.copy(), a.dt)


def containers(ctx, I, b, nc, ns, sails_def, interp='spline', **more):
    c = S_()
    c.solver = ctx.call(I, RC + 'Solver', n_spanwise=ns, n_chordwise=nc, interpolation_type=interp)
    c.rig = ctx.call(I, RC + 'Rig', sails_def=sails_def, **b.rig)
    c.main = ctx.call(I, RC + 'MainSail', **{k: copy_table(v) for k, v in b.sail['main'].items()})
    c.jib = ctx.call(I, RC + 'JibSail', **{k: copy_table(v) for k, v in b.sail['jib'].items()})
    c.cs = ctx.call(I, 'rotations.csys_transformations.CSYS_transformations', b.heel, b.lee, b.ref)
    return c


def build_set(ctx, I, c):
    s = ctx.call(I, 'runner.sail.Sail', c.solver, c.rig, c.main, c.jib, c.cs)
    first = list(I.raises[0])
    if s is UNSET:
        return UNSET, first
    st = ctx.attr(I, s, 'sail_set')
    return st, first + list(I.raises[0])


def interpolated(values, nodes, n, method):
    """n evenly spaced stations from foot to head"""
    ps = [P(x) if isinstance(x, Q) else x for x in nodes]
    out = []
    for i in range(n):
        x = P(Q(i, n - 1))
        acc = ZERO
        for k in range(len(ps)):
            w = hat_exact(x, ps, k) if method == 'linear' else None
            if w is None:
                w = basis('hat' if method == 'linear' else 'spl:3', x, ps, k)
            acc = g_add(acc, g_mul(w, values[k]))
        out.append(acc)
    return Arr(np.array(out + [None], dtype=object)[:-1], 'f')


def mounting(b, kind):
    r = b.rig
    ph = d2r(r['rake_deg'])
    c, s = g_cos(ph), g_sin(ph)
    up = np.array([g_neg(c), ZERO, s] + [None], dtype=object)[:-1]          # unit vector along the raked mast
    sheer = vscale(up, r['sheer_above_waterline'])
    if kind == 'main':
        tack = vadd(sheer, vscale(up, r['boom_above_sheer']))
        return tack, vadd(tack, vscale(up, r['main_sail_luff']))
    tack = vadd(sheer, [g_neg(g_add(r['foretriangle_base'], g_div(r['mast_LOA'], s))), ZERO, ZERO])
    # the forestay runs from the foot of the foretriangle to its top on the mast
    stay = vadd([r['foretriangle_base'], ZERO, ZERO], vscale(up, r['foretriangle_height']))
    return tack, vadd(tack, vscale(stay, g_div(r['jib_luff'], norm(stay))))


def spec_sail(b, kind, ns, method):
    d = S_()
    d.name = 'main_sail' if kind == 'main' else 'jib'
    d.tack, d.head = mounting(b, kind)
    t = lambda n: interpolated(list(b.sail[kind][n].a), b.nodes[kind], ns + 1, method)
    d.chords, d.twist, d.camber, d.pos = (t(n) for n in TABLES)
    return d


KINDS = {'jib': ['jib'], 'main': ['main'], 'jib_and_main': ['jib', 'main']}


def spec_panels(b, sails_def, nc, ns, method, mode='real_twist'):
    above, under = [], []
    for k in KINDS[sails_def]:
        a = panels_of(surface(spec_sail(b, k, ns, method), nc, ns, b.heel, b.lee, mode), nc, ns)
        above.append(a)
        under.append(mirrored_panels(a, nc, ns))
    return np.concatenate(above), np.concatenate(under)
