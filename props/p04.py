"""P04  Vortex elements obey Biot-Savart and close into complete circuits."""
from sa.kit import *

TITLE = 'Vortex elements obey Biot-Savart and close into complete circuits'
RULE = ('The value number returned by each vortex element is compared with the Biot-Savart law (segment: outside the core '
        'the closed formula, inside zero; filament: the limit formula) and each compound element with the signed sum of '
        'its closed circuit of legs.')
MIN = 20


def bs(p, a, b, g):
    r0, r1, r2 = vsub(b, a), vsub(p, a), vsub(p, b)
    c = cross(r1, r2)
    k = g_div(g_sub(g_div(dot(r0, r1), norm(r1)), g_div(dot(r0, r2), norm(r2))), dot(c, c))
    return vscale(c, g_div(g_mul(g, k), g_mul(P(4), PIP)))


def bs_inf(p, a, d, g):
    r = vsub(p, a)
    n = norm(d)
    u = [g_div(x, n) for x in d]
    nr = norm(r)
    den = g_mul(g_mul(nr, g_sub(nr, dot(u, r))), g_mul(P(4), PIP))
    return [g_div(g_mul(g, x), den) for x in cross(u, r)]


def zero_like(l):
    return not isinstance(l, DD) and num(l) is not None and not num(l).terms


def segment(ctx):
    I = ctx.interp()
    p, a, b, g = vec('p'), vec('A'), vec('B'), sc('g')
    loc = ctx.anchorloc('solver.velocity.vortex_line')
    r = ctx.call(I, 'solver.velocity.vortex_line', p, a, b, g)
    loc = ctx.anchorloc('solver.velocity.vortex_line')
    want = bs(p.a, a.a, b.a, g)
    if isinstance(r, (Opaque,)) or r is UNSET:
        ctx.add('segment-field', 'vortex_line', 'unknown', str(r), loc)
        return
    # every alternative is either the field or the (core) zero
    alts = cases(r) if isinstance(r, DD) and has_obj(r) else [(True, r)]
    live = 0
    for c, l in alts:
        v = npa(l)
        if v is None or v.shape != (3,):
            ctx.add('segment-field', 'vortex_line', 'refuted' if v is not None else 'unknown', 'does not return three components', loc)
            continue
        inner = any(isinstance(x, DD) for x in v)
        if not inner and all(zero_like(x) for x in v):
            continue
        live += 1
        if inner:
            for i in range(3):
                for cc, x in cases(v[i]) if isinstance(v[i], DD) else [(True, v[i])]:
                    if not zero_like(x):
                        ctx.eq('segment-field', 'vortex_line component %s' % 'xyz'[i], x, want[i], g_and(c, cc), loc, I)
        else:
            for i in range(3):
                ctx.eq('segment-field', 'vortex_line component %s' % 'xyz'[i], v[i], want[i], c, loc, I)
    ctx.fact('segment-field-present', 'vortex_line', live > 0, 'no alternative carries the field of the segment', loc)
    ctx.no_raise('segment-total', 'vortex_line', I)


PTS = [((0, 0, 0), (1, 0, 0), (Q(1, 2), Q(1, 10), 0)),
       ((0, 0, 0), (1, 0, 0), (Q(-1, 100), Q(1, 100), 0)),
       ((1, 2, -1), (1, 2, 3), (Q(11, 10), 2, Q(1, 3))),
       ((0, 0, 0), (0, Q(1, 10), 0), (Q(1, 100), Q(1, 20), Q(1, 10))),
       ((0, 0, 0), (0, 0, 40), (Q(1, 1000), 0, 20)),
       ((Q(1, 2), Q(1, 3), 5), (Q(2, 3), 1, 7), (3, 1, 1)),
       ((-3, 1, 2), (4, 1, 0), (Q(1, 3), 5, -5)),
       ((0, 0, 0), (2, 0, 0), (4, Q(1, 50), 0)),
       # the core is no wider than 0.2 mm around a segment of one metre
       ((0, 0, 0), (1, 0, 0), (Q(1, 2), Q(2, 10 ** 4), 0)),
       ((0, 0, 0), (1, 0, 0), (1, 0, Q(2, 10 ** 4))),
       ((0, 0, 0), (1, 0, 0), (1 + Q(2, 10 ** 4), Q(2, 10 ** 4), 0)),
       ((0, 0, 0), (0, 0, Q(1, 10)), (Q(2, 1000), 0, Q(1, 20))),
       ((0, 0, 0), (0, 5, 0), (Q(4, 10 ** 5), 2, 0)),
       ((1, 1, 1), (1, 1, 6), (1, 1 + Q(4, 10 ** 5), 1 + Q(1, 10 ** 3)))]


def segment_core(ctx):
    """the core is exactly the degenerate set and its immediate neighbourhood"""
    g = sc('g')
    for k, (a, b, p) in enumerate(PTS):
        I = ctx.interp()
        A, B, Pp = arr(a), arr(b), arr(p)
        r = ctx.call(I, 'solver.velocity.vortex_line', Pp, A, B, g)
        ctx.eq('segment-not-swallowed', 'vortex_line near %d' % k, r, arr(bs(Pp.a, A.a, B.a, g)), True,
               ctx.anchorloc('solver.velocity.vortex_line'), I, 'field close to, but outside, the segment')
    t = sc('t')
    a, b = vec('A'), vec('B')
    on = [g_add(x, g_mul(t, g_sub(y, x))) for x, y in zip(a.a, b.a)]
    for nm, p in (('start', a.a.copy()), ('end', b.a.copy()), ('axis', np.array(on, dtype=object))):
        I = ctx.interp()
        r = ctx.call(I, 'solver.velocity.vortex_line', Arr(p, 'f'), a, b, g)
        ctx.eq('core-zero', 'vortex_line on its %s' % nm, r, arr([0, 0, 0]), True, ctx.anchorloc('solver.velocity.vortex_line'), I)


def filament(ctx):
    I = ctx.interp()
    p, a, d, g = vec('p'), vec('A'), vec('d'), sc('g')
    r = ctx.call(I, 'solver.velocity.vortex_infinite_line', p, a, d, g)
    loc = ctx.anchorloc('solver.velocity.vortex_infinite_line')
    want = bs_inf(p.a, a.a, d.a, g)
    ctx.eq('filament-field', 'vortex_infinite_line', r, np.array(want, dtype=object), True, loc, I)
    ctx.no_raise('filament-total', 'vortex_infinite_line', I)
    # only the direction of the free stream matters
    k = sc('k', '+')
    J = ctx.interp()
    r2 = ctx.call(J, 'solver.velocity.vortex_infinite_line', p, a, Arr(vscale(d.a, k), 'f'), g)
    ctx.eq('filament-direction-only', 'vortex_infinite_line', r2, np.array(want, dtype=object), True, loc, J)


def compound(ctx):
    p, A, B, C, D, V = (vec(n) for n in ('p', 'A', 'B', 'C', 'D', 'V'))
    for gname, g in (('symbolic circulation', sc('g')), ('unit', ONE), ('negative unit', P(-1))):
        for fn, args, want in (
                ('vortex_ring', (p, A, B, C, D, g), ring_spec(p.a, A.a, B.a, C.a, D.a, g)),
                ('vortex_horseshoe', (p, B, C, V, g), shoe_spec(p.a, B.a, C.a, V.a, g)),
                ('vortex_horseshoe_v2', (p, A, B, C, D, V, g), shoe2_spec(p.a, A.a, B.a, C.a, D.a, V.a, g))):
            I = ctx.interp(CUTS_VORTEX)
            r = ctx.call(I, 'solver.velocity.' + fn, *args)
            ctx.eq('closed-circuit', '%s (%s)' % (fn, gname), r, want, True, ctx.anchorloc('solver.velocity.' + fn), I)
            ctx.no_raise('element-total', '%s (%s)' % (fn, gname), I)


def inputs_kept(ctx):
    """the elements do not modify the points handed to them"""
    g = sc('g')
    for fn, n in (('vortex_line', 3), ('vortex_infinite_line', 3), ('vortex_ring', 5), ('vortex_horseshoe', 4), ('vortex_horseshoe_v2', 6)):
        I = ctx.interp(CUTS_VORTEX if n > 3 else None)
        vs = [vec('q%d' % i) for i in range(n)]
        for i, v in enumerate(vs):
            I.own(v, 'argument %d of %s' % (i, fn))
        ctx.call(I, 'solver.velocity.' + fn, *vs, g)
        m = [e for e in I.events if e.kind == 'mutate']
        ctx.fact('points-unchanged', fn, not m, 'modifies %s' % (m[0].data['label'] if m else ''), I.fmtloc(m[0].loc) if m else None)


STEPS = [segment, segment_core, filament, compound, inputs_kept]
