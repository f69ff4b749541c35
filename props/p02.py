"""P02  The sail surface realises the configured luff, chord, camber and twist."""
from props.geometry import *

TITLE = 'The sail surface realises the configured luff, chord, camber and twist'
RULE = ('The panel corners of a sail built from symbolic mounting points, chords, cambers, camber positions, twists, heel and leeway are '
        'compared with the specified surface for every twist mode and grid shape; meshing helpers and the camber line likewise.')
MIN = 60
MODES = ('real_twist', 'sheeting_angle_const', 'average_const', None)


def shapes(ctx):
    g = [(1, 1), (1, 2), (2, 1), (2, 2), (3, 2), (2, 3)]
    if ctx.thorough:
        g += [(1, 4), (4, 1), (3, 3), (4, 3)]
    return g


def frame_of(ctx, I):
    heel, lee = sc('heel', rng=(-30, 30)), sc('leeway', rng=(-20, 20))
    return ctx.call(I, 'rotations.csys_transformations.CSYS_transformations', heel, lee, vec('ref')), heel, lee


def surfaces(ctx):
    for nc, ns in shapes(ctx):
        for mode in MODES:
            I = ctx.interp(CUTS_GEOM)
            cs, heel, lee = frame_of(ctx, I)
            d = sail_data(ns)
            s = make_sail(ctx, I, d, nc, ns, cs, mode or 'real_twist', mode is not None)
            loc = ctx.anchorloc(GEOM + 'SailGeometry')
            inst = '%dx%d panels, %s' % (nc, ns, mode or 'no twist')
            ctx.no_raise('surface-total', inst, I)
            want = panels_of(surface(d, nc, ns, heel, lee, mode), nc, ns)
            ctx.eq('sail-surface', inst, ctx.attr(I, s, 'panels_above'), want, True, loc, I, 'corner')
            te, le = edge_flags(nc, ns)
            if mode == 'real_twist':
                ctx.eq('edge-marks', inst + ', trailing', ctx.attr(I, s, 'trailing_edge_info'), np.array(te, dtype=object), True, loc, I, 'trailing-edge mark')
                ctx.eq('edge-marks', inst + ', leading', ctx.attr(I, s, 'leading_edge_info'), np.array(le, dtype=object), True, loc, I, 'leading-edge mark')
                zero = panels_of(flat_grid(d, nc, ns), nc, ns)
                z = ctx.attr(I, s, 'panels_above_zero')
                if z is not UNSET:
                    ctx.eq('upright-surface', inst, z, zero, True, loc, I, 'corner')


def meshes(ctx):
    for n in (1, 2, 3, 5):
        I = ctx.interp()
        a, b = vec('a'), vec('b')
        r = ctx.call(I, 'solver.mesher.discrete_segment', a, b, n)
        want = np.array([vadd(a.a, vscale(vsub(b.a, a.a), P(Q(i, n)))) for i in range(n + 1)], dtype=object)
        ctx.eq('even-stations', '%d parts' % n, r, want, True, ctx.anchorloc('solver.mesher.discrete_segment'), I, 'station')
        s1, s2 = tensor('a', (n, 3)), tensor('b', (n, 3))
        r = ctx.call(I, 'solver.mesher.make_point_mesh', s1, s2, n)
        want = np.array([[vadd(s1.a[k], vscale(vsub(s2.a[k], s1.a[k]), P(Q(i, n)))) for i in range(n + 1)] for k in range(n)], dtype=object)
        ctx.eq('even-stations', 'mesh of %d lines' % n, r, want, True, ctx.anchorloc('solver.mesher.make_point_mesh'), I, 'mesh point')
    for nc, ns in shapes(ctx):
        I = ctx.interp()
        m = tensor('m', (nc + 1, ns + 1, 3))
        r = ctx.call(I, 'solver.panels.make_panels_from_mesh_spanwise', m)
        loc = ctx.anchorloc('solver.panels.make_panels_from_mesh_spanwise')
        inst = '%dx%d panels' % (nc, ns)
        if not (isinstance(r, tuple) and len(r) == 3):
            ctx.fact('panel-corners', inst, None, 'not a triple', loc)
            continue
        te, le = edge_flags(nc, ns)
        ctx.eq('panel-corners', inst, r[0], panels_of(m.a, nc, ns), True, loc, I, 'corner')
        ctx.eq('edge-marks', inst + ' from a mesh, trailing', r[1], np.array(te, dtype=object), True, loc, I, 'trailing-edge mark')
        ctx.eq('edge-marks', inst + ' from a mesh, leading', r[2], np.array(le, dtype=object), True, loc, I, 'leading-edge mark')
        # the mesh of one sail section by section
        I = ctx.interp(CUTS_GEOM)
        d = sail_data(ns)
        cv = np.empty((ns + 1, 3), dtype=object)
        for j in range(ns + 1):
            cv[j] = [d.chords.a[j], ZERO, ZERO]
        r = ctx.call(I, 'solver.mesher.make_airfoil_mesh', I.mklist([A(d.tack), A(d.head)]), I.mklist([nc, ns]), Arr(cv, 'f'), d.pos, d.camber)
        g = flat_grid(d, nc, ns)
        want = np.array([[g[i][j] for i in range(nc + 1)] for j in range(ns + 1)], dtype=object)
        ctx.eq('airfoil-mesh', inst, r, want, True, ctx.anchorloc('solver.mesher.make_airfoil_mesh'), I, 'mesh point')


def airfoil(ctx):
    """the camber line itself, without the contract"""
    V = 'thin_airfoil.vlm_airfoil.VlmAirfoil'
    for n in (2, 3, 4, 6) + ((11,) if ctx.thorough else ()):
        I = ctx.interp()
        m, p, t = sc('m', rng=(0.01, 0.3)), sc('p', rng=(0.1, 0.9)), sc('t', rng=(0.01, 0.4))
        valid = g_and(ge(P(Q(3, 10)), m), g_and(ge(P(Q(9, 10)), p), ge(P(Q(4, 10)), t)))
        f = ctx.call(I, V, m, p, t, n)
        loc = ctx.anchorloc(V)
        xs = [P(Q(i, n - 1)) for i in range(n)]
        inst = '%d points' % n
        ctx.eq('chord-fractions', inst, ctx.attr(I, f, 'xc'), np.array(xs + [None], dtype=object)[:-1], valid, loc, I, 'chord fraction')
        want = []
        for x in xs:
            fore = g_div(g_mul(m, g_sub(g_mul(P(2), g_mul(p, x)), g_mul(x, x))), g_mul(p, p))
            q = g_sub(ONE, p)
            aft = g_div(g_mul(m, g_sub(g_add(g_sub(ONE, g_mul(P(2), p)), g_mul(P(2), g_mul(p, x))), g_mul(x, x))), g_mul(q, q))
            want.append(ite(gt(p, x), fore, aft))
        ctx.eq('camber-line', inst, ctx.attr(I, f, 'yc'), np.array(want + [None], dtype=object)[:-1], valid, loc, I, 'camber')
        ctx.no_raise('camber-line', inst + ', total', I, valid)
        # surfaces lie at the thickness either side of the camber line
        yt = npa(ctx.attr(I, f, 'yt'))
        A_ = lambda s: npa(ctx.attr(I, f, s))
        xu, xl, yu, yl = A_('xu'), A_('xl'), A_('yu'), A_('yl')
        if yt is None or any(x is None for x in (xu, xl, yu, yl)):
            continue
        for i, x in enumerate(xs):
            ctx.eq('thickness-about-camber', '%s, %d' % (inst, i), Arr(np.array([half(g_add(xu[i], xl[i])), half(g_add(yu[i], yl[i]))] + [None], dtype=object)[:-1], 'f'),
                   np.array([x, want[i]] + [None], dtype=object)[:-1], valid, loc, I, 'mean of upper and lower surface')
            dx, dy = g_sub(xu[i], xl[i]), g_sub(yu[i], yl[i])
            ctx.eq('thickness-about-camber', '%s, %d, distance' % (inst, i), g_add(g_mul(dx, dx), g_mul(dy, dy)), g_mul(P(4), g_mul(yt[i], yt[i])), valid, loc, I, 'squared thickness')


STEPS = [meshes, airfoil, surfaces]
