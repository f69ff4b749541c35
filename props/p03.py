"""P03  Sail mounting points realise the configured rig dimensions."""
from props.rig import *

TITLE = 'Sail mounting points realise the configured rig dimensions'
RULE = ('The mounting points and the panels of sails built from fully symbolic rig settings are compared with the raked mast line, the '
        'forestay line and the configured luff lengths, for every sail set.')
MIN = 30
# (a rig whose forestay foot lies ahead of the mast top; the mast rises)


def mounting_points(ctx):
    for sails_def in ('jib', 'main', 'jib_and_main'):
        for nc, ns, method in [(1, 1, 'linear'), (2, 2, 'linear')]:
            I = ctx.interp(CUTS_GEOM)
            b = boat()
            c = containers(ctx, I, b, nc, ns, sails_def, method)
            st, raised = build_set(ctx, I, c)
            loc = ctx.anchorloc('runner.sail.Sail')
            inst = '%s, %dx%d' % (sails_def, nc, ns)
            if st is UNSET:
                ctx.fact('set-built', inst, False if raised else None, 'no sail set for a valid rig: %s' % [exc_str(e) for _, e, _, _ in raised][:2], loc)
                continue
            sails = I.iter_plain(ctx.attr(I, st, 'sails'))
            if sails is None or len(sails) != len(KINDS[sails_def]):
                ctx.fact('sails-of-the-set', inst, False if sails is not None else None, 'has %s sails, expected %s' % (sails and len(sails), KINDS[sails_def]), loc)
                continue
            ctx.fact('sails-of-the-set', inst, True)
            for s, kind in zip(sails, KINDS[sails_def]):
                tack, head = mounting(b, kind)
                i2 = '%s, %s' % (inst, kind)
                floc = ctx.anchorloc('runner.sail.Sail')
                ctx.eq('sail-name', i2, ctx.attr(I, s, 'name'), 'main_sail' if kind == 'main' else 'jib', True, floc, I, 'name')
                t, h = ctx.attr(I, s, 'tack_mounting'), ctx.attr(I, s, 'head_mounting')
                ctx.eq('tack', i2, t, tack, True, floc, I, 'tack')
                ctx.eq('head', i2, h, head, True, floc, I, 'head')
                tn, hn = npa(t), npa(h)
                if tn is not None and hn is not None and tn.shape == hn.shape == (3,):
                    v = vsub(hn, tn)
                    L = b.rig['main_sail_luff' if kind == 'main' else 'jib_luff']
                    ctx.eq('luff-length', i2, dot(v, v), g_mul(L, L), True, floc, I, 'squared luff length')
                ctx.eq('panel-counts', i2, ctx.attr(I, s, 'n_spanwise'), ns, True, floc, I, 'spanwise panels')
                ctx.eq('panel-counts', i2 + ', chordwise', ctx.attr(I, s, 'n_chordwise'), nc, True, floc, I, 'chordwise panels')


def panels(ctx):
    """what finally reaches the solver"""
    cases = [('jib', 1, 2, 'linear'), ('main', 2, 1, 'linear'), ('jib_and_main', 1, 1, 'linear'), ('jib_and_main', 1, 1, 'spline'), ('jib_and_main', 2, 2, 'linear')]
    for sails_def, nc, ns, method in cases:
        I = ctx.interp(CUTS_GEOM)
        b = boat()
        c = containers(ctx, I, b, nc, ns, sails_def, method)
        st, raised = build_set(ctx, I, c)
        loc = ctx.anchorloc('runner.sail.Sail')
        inst = '%s, %dx%d, %s' % (sails_def, nc, ns, method)
        if st is UNSET:
            continue
        above, under = spec_panels(b, sails_def, nc, ns, method)
        ctx.eq('sail-panels', inst, ctx.attr(I, st, 'panels'), np.concatenate([above, under]), True, loc, I, 'corner')
        for pc, e, l, q in raised:
            ctx.never('valid-rig-accepted', inst, pc, True, '%s (%s)' % (I.fmtloc(l), q), 'raises %s' % exc_str(e))
        if not raised:
            ctx.fact('valid-rig-accepted', inst, True)


STEPS = [mounting_points, panels]
