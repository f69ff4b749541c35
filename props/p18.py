"""P18  Girth tables are interpolated at the stations they describe."""
from props.rig import *

TITLE = 'Girth tables are interpolated at the stations they describe'
RULE = ('The interpolated values are expanded in the basis of the interpolation method over symbolic girths and table values and compared, '
        'station by station, with the interpolant of the own table at evenly spaced stations; then for the panels of whole sails.')
MIN = 30
IP = 'solver.interpolator.Interpolator'


def nodes_sym(n, name='g'):
    """n increasing girths from 0 to 1"""
    inc = [sc('%s.d%d' % (name, k), '+', rng=(0.5, 2)) for k in range(n - 1)]
    tot = gsum(inc)
    out = [ZERO]
    for k in range(1, n):
        out.append(ONE if k == n - 1 else g_div(gsum(inc[:k]), tot))
    return out


def methods(ctx):
    for method in ('linear', 'spline'):
        for n in (4, 5, 7):
            for stations_ in (2, 3, 4, 6) + ((11,) if ctx.thorough else ()):
                for kind in ('symbolic', 'even'):
                    I = ctx.interp()
                    g = nodes_sym(n) if kind == 'symbolic' else [P(Q(k, n - 1)) for k in range(n)]
                    y = tensor('y', (n,))
                    o = ctx.call(I, IP, method)
                    r = ctx.call(I, ctx.attr(I, o, 'interpolate_girths'), A(g), y, stations_)
                    loc = ctx.anchorloc(IP)
                    inst = '%s, %d girths (%s), %d stations' % (method, n, kind, stations_)
                    ctx.eq('interpolant', inst, r, interpolated(list(y.a), g, stations_, method), True, loc, I, 'interpolated value')
                    if kind == 'symbolic':
                        ctx.no_raise('interpolant', inst + ', total', I)


def through_points(ctx):
    """both methods pass through the given points: a table sampled at the stations comes back unchanged"""
    for method in ('linear', 'spline'):
        for n in (4, 5, 7):
            I = ctx.interp()
            g = [P(Q(k, n - 1)) for k in range(n)]
            y = tensor('y', (n,))
            o = ctx.call(I, IP, method)
            r = ctx.call(I, ctx.attr(I, o, 'interpolate_girths'), A(g), y, n)
            ctx.eq('through-points', '%s, %d girths' % (method, n), r, y.a, True, ctx.anchorloc(IP), I, 'value at the girth')


def sails(ctx):
    # tables of different lengths, and of one length with other girths
    same_length = dict(jib=NODES['jib'], main=[Q(0), Q(1, 5), Q(2, 5)] + [Q(1, 2) + Q(k, 20) for k in range(len(NODES['jib']) - 4)] + [Q(1)])
    longer = dict(jib=same_length['main'], main=NODES['jib'] )
    cases = [('jib', 1, 2, 'spline', None), ('main', 1, 2, 'spline', None), ('jib_and_main', 2, 2, 'spline', None), ('jib_and_main', 2, 3, 'linear', None),
             ('jib_and_main', 1, 3, 'linear', same_length), ('jib', 1, 3, 'linear', longer), ('main', 1, 3, 'linear', longer)]
    if ctx.thorough:
        cases += [('jib_and_main', 2, 3, 'spline', None), ('jib_and_main', 1, 4, 'linear', None), ('jib_and_main', 1, 2, 'spline', same_length), ('jib_and_main', 1, 4, 'linear', longer)]
    for sails_def, nc, ns, method, nodes in cases:
        I = ctx.interp(CUTS_GEOM)
        b = boat(nodes)
        c = containers(ctx, I, b, nc, ns, sails_def, method)
        st, raised = build_set(ctx, I, c)
        loc = ctx.anchorloc('runner.sail.Sail')
        inst = '%s, %dx%d, %s%s' % (sails_def, nc, ns, method, ', tables of one length' if nodes else '')
        if st is UNSET:
            ctx.fact('own-table', inst, False if raised else None, 'no sail set', loc)
            continue
        above, under = spec_panels(b, sails_def, nc, ns, method)
        ctx.eq('own-table', inst, ctx.attr(I, st, 'panels'), np.concatenate([above, under]), True, loc, I, 'corner')


def mirror_helpers(ctx):
    I = ctx.interp()
    n = 5
    g = nodes_sym(n)
    y = tensor('y', (n,))
    o = ctx.call(I, IP, 'linear')
    f = ctx.attr(I, o, 'interpolate_and_mirror_girths')
    if f is UNSET:
        return
    r = ctx.call(I, f, A(g), y, 3)
    v = list(interpolated(list(y.a), g, 3, 'linear').a)
    ctx.eq('mirrored-table', 'linear', r, np.array(v[::-1] + v + [None], dtype=object)[:-1], True, ctx.anchorloc(IP), I, 'value')


STEPS = [methods, through_points, sails, mirror_helpers]
