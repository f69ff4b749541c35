"""P01  The underwater half is the exact mirror image of the rig."""
from props.geometry import *
from props.p02 import shapes, MODES, frame_of

TITLE = 'The underwater half is the exact mirror image of the rig'
RULE = ('The underwater corners of sails and sail sets built from symbolic rigs are compared with the reflection in the water plane of '
        'the above-water corners, panel by panel, for every twist mode and grid shape; marks and ordering likewise.')
MIN = 40


def reflection(ctx):
    for nc, ns in shapes(ctx):
        for mode in MODES:
            I = ctx.interp(CUTS_GEOM)
            cs, heel, lee = frame_of(ctx, I)
            d = sail_data(ns)
            s = make_sail(ctx, I, d, nc, ns, cs, mode or 'real_twist', mode is not None)
            loc = ctx.anchorloc(GEOM + 'SailGeometry')
            inst = '%dx%d panels, %s' % (nc, ns, mode or 'no twist')
            above, under = npa(ctx.attr(I, s, 'panels_above')), npa(ctx.attr(I, s, 'panels_under'))
            both = ctx.attr(I, s, 'panels')
            if above is None or under is None or above.shape != (nc * ns, 4, 3):
                ctx.fact('mirror-image', inst, False if above is not None and under is not None else None, 'panels not available as %d x 4 x 3' % (nc * ns), loc)
                continue
            ctx.eq('mirror-image', inst, Arr(under, 'f'), mirrored_panels(above, nc, ns), True, loc, I, 'underwater corner')
            ctx.eq('above-first', inst, both, np.concatenate([above, under]), True, loc, I, 'corner')
            if mode == 'real_twist':
                za, zu = npa(ctx.attr(I, s, 'panels_above_zero')), npa(ctx.attr(I, s, 'panels_under_zero'))
                if za is not None and zu is not None and za.shape == zu.shape == above.shape:
                    ctx.eq('mirror-image-upright', inst, Arr(zu, 'f'), mirrored_panels(za, nc, ns), True, loc, I, 'underwater corner')


def full(ctx):
    """without the contracts for the camber line and the rotation: small grids, everything inlined"""
    for nc, ns in [(1, 1), (2, 1)] + ([(1, 2), (2, 2)] if ctx.thorough else []):
        I = ctx.interp({AIRFOIL: cut_airfoil})
        cs, heel, lee = frame_of(ctx, I)
        d = sail_data(ns)
        s = make_sail(ctx, I, d, nc, ns, cs, 'real_twist', True)
        loc = ctx.anchorloc(GEOM + 'SailGeometry')
        inst = '%dx%d panels, rotations inlined' % (nc, ns)
        above, under = npa(ctx.attr(I, s, 'panels_above')), npa(ctx.attr(I, s, 'panels_under'))
        if above is None or under is None:
            ctx.fact('mirror-image', inst, None, 'panels not available', loc)
            continue
        ctx.eq('mirror-image', inst, Arr(under, 'f'), mirrored_panels(above, nc, ns), True, loc, I, 'underwater corner')


def sets(ctx):
    """a set of sails: above water sail by sail, then the mirrored ones in the same order; marks agree"""
    for nc, ns, S in [(1, 1, 1), (2, 1, 2), (1, 2, 2), (2, 2, 2), (2, 2, 1)]:
        I = ctx.interp(CUTS_GEOM)
        cs, heel, lee = frame_of(ctx, I)
        sails = [make_sail(ctx, I, sail_data(ns, 's%d' % k), nc, ns, cs) for k in range(S)]
        st = ctx.call(I, GEOM + 'SailSet', I.mklist(list(sails)))
        loc = ctx.anchorloc(GEOM + 'SailSet')
        inst = '%dx%d panels, %d sails' % (nc, ns, S)
        g = lambda o, n: npa(ctx.attr(I, o, n))
        parts = [g(s, 'panels_above') for s in sails] + [g(s, 'panels_under') for s in sails]
        if any(p is None for p in parts):
            ctx.fact('set-order', inst, None, 'panels not available', loc)
            continue
        ctx.eq('set-order', inst, ctx.attr(I, st, 'panels'), np.concatenate(parts), True, loc, I, 'corner')
        te, le = edge_flags(nc, ns)
        ctx.eq('set-marks', inst + ', trailing', ctx.attr(I, st, 'trailing_edge_info'), np.array(te * 2 * S, dtype=object), True, loc, I, 'trailing-edge mark')
        ctx.eq('set-marks', inst + ', leading', ctx.attr(I, st, 'leading_edge_info'), np.array(le * 2 * S, dtype=object), True, loc, I, 'leading-edge mark')
        z = ctx.attr(I, st, 'zero_mesh')
        if z is not UNSET:
            ctx.eq('set-order', inst + ', upright', z, np.concatenate([g(s, 'panels_above_zero') for s in sails] + [g(s, 'panels_under_zero') for s in sails]),
                   True, loc, I, 'corner')


STEPS = [reflection, full, sets]
