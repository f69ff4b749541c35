"""P09  Frames are rigid rotations in the documented sense and are inverted exactly."""
from props.common import *
from props.results import rotz, rotx

TITLE = 'Frames are rigid rotations in the documented sense and are inverted exactly'
RULE = ('Rotation matrices and frame changes are compared with Rodrigues\' formula and the documented angles for symbolic '
        'axes, angles and points on either side of the water plane; inverses are composed with what they invert.')
MIN = 30
C = 'rotations.csys_transformations.CSYS_transformations'
G = 'rotations.geometry_calc.'


def rodrigues(p, n, th):
    """rotation of p by th about the unit axis n"""
    c, s = g_cos(th), g_sin(th)
    return vadd(vscale(p, c), vscale(cross(n, p), s), vscale(n, g_mul(dot(n, p), g_sub(ONE, c))))


def unit(a):
    return vscale(a, g_div(ONE, norm(a)))


def angles():
    return sc('heel', rng=(-60, 60)), sc('leeway', rng=(-30, 30))


def point(name, z=None):
    return vec(name, {2: z} if z else None)


def matvec(M, p):
    return np.array([dot(M[i], p) for i in range(3)] + [None], dtype=object)[:-1]


def heeled(p, heel, lee, mirrored=False):
    h = d2r(heel)
    return rotz(rotx(p, h if mirrored else g_neg(h)), d2r(lee))


def matrices(ctx):
    I = ctx.interp()
    loc = lambda n: ctx.anchorloc(n)
    th = sc('th', rng=(-3, 3))
    a, p = vec('a'), vec('p')
    for name, ax in (('general axis', a), ('x axis', arr([1, 0, 0])), ('z axis', arr([0, 0, 1])), ('y axis', arr([0, 1, 0])), ('scaled axis', arr([0, 0, 3]))):
        M = ctx.call(I, G + 'rotation_matrix', ax, th)
        m = npa(M)
        if m is None or m.shape != (3, 3):
            ctx.fact('rotation-matrix', name, False if m is not None else None, 'not a 3x3 matrix', loc(G + 'rotation_matrix'))
            continue
        ctx.eq('rotation-matrix', name, Arr(matvec(m, p.a), 'f'), rodrigues(p.a, unit(ax.a), th), True, loc(G + 'rotation_matrix'), I, 'rotated vector')
        ctx.no_raise('rotation-matrix', name + ', total', I)


def arbitrary_axis(ctx):
    for n in (1, 2, 3):
        I = ctx.interp()
        th = sc('th', rng=(-3, 3))
        p1, p2 = vec('u'), vec('w')
        ps = tensor('p', (n, 3))
        r = ctx.call(I, G + 'rotate_points_around_arbitrary_axis', ps, p1, p2, th)
        ax = unit(vsub(p2.a, p1.a))
        want = np.array([vadd(p1.a, rodrigues(vsub(q, p1.a), ax, th)) for q in ps.a], dtype=object)
        l = ctx.anchorloc(G + 'rotate_points_around_arbitrary_axis')
        ctx.eq('rotation-about-line', '%d point%s' % (n, 's' if n > 1 else ''), r, want, True, l, I, 'rotated points')
        if n == 2:
            on = Arr(np.array([p1.a, vadd(p1.a, vscale(vsub(p2.a, p1.a), sc('t')))], dtype=object), 'f')
            r = ctx.call(I, G + 'rotate_points_around_arbitrary_axis', on, p1, p2, th)
            ctx.eq('axis-fixed', 'points on the axis', r, on.a, True, l, I, 'points of the axis')
        # lines along a coordinate axis, in either direction
        for k, c in enumerate('xyz'):
            for d, w in (('positive', sc('len', '+')), ('negative', g_neg(sc('len', '+')))):
                I = ctx.interp()
                q2 = p1.a.copy()
                q2[k] = g_add(q2[k], w)
                r = ctx.call(I, G + 'rotate_points_around_arbitrary_axis', ps, p1, Arr(q2, 'f'), th)
                want = np.array([vadd(p1.a, rodrigues(vsub(q, p1.a), unit(vsub(q2, p1.a)), th)) for q in ps.a], dtype=object)
                ctx.eq('rotation-about-line', '%d point%s, along %s, %s' % (n, 's' if n > 1 else '', c, d), r, want, True, l, I, 'rotated points')
        I = ctx.interp()
        ax = vec('a')
        r = ctx.call(I, G + 'rotate_points_around_origin_axis', ps, ax, th)
        want = np.array([rodrigues(q, unit(ax.a), th) for q in ps.a], dtype=object)
        ctx.eq('rotation-about-origin-axis', '%d point%s' % (n, 's' if n > 1 else ''), r, want, True,
               ctx.anchorloc(G + 'rotate_points_around_origin_axis'), I, 'rotated points')


def frames(ctx):
    heel, lee = angles()
    I = ctx.interp()
    cs = ctx.call(I, C, heel, lee, vec('ref'))
    ctx.no_raise('frame-total', 'construction', I)
    loc = ctx.anchorloc(C)
    M = lambda n, *a: ctx.call(I, ctx.attr(I, cs, n), *a)
    for z, nm in (('+', 'above water'), ('-', 'mirrored')):
        p = point('q' + nm[0], z)
        ctx.eq('heel-then-leeway', nm, M('rotate_point_with_mirror', p), heeled(p.a, heel, lee, z == '-'), True, loc, I, 'heeled point')
        ctx.eq('keel-not-mirrored', nm, M('rotate_point_without_mirror', p), heeled(p.a, heel, lee), True, loc, I, 'rotated point')
        # inverse, for points which heel does not carry across the water plane
        h = Arr(heeled(p.a, heel, lee, z == '-'), 'f')
        keeps = gt(h.a[2], ZERO) if z == '+' else gt(ZERO, h.a[2])
        ctx.eq('straightening-inverts', nm, M('reverse_rotations_with_mirror', h), p.a, keeps, loc, I, 'straightened point')
        r = M('rotate_point_with_mirror', p)
        ctx.eq('straightening-inverts', nm + ', composed', M('reverse_rotations_with_mirror', r), p.a, keeps, loc, I, 'straightened point')
    p = point('p')
    ctx.eq('keel-not-mirrored', 'any point', M('rotate_point_without_mirror', p), heeled(p.a, heel, lee), True, loc, I, 'rotated point')
    ctx.eq('angles-kept', 'heel', ctx.attr(I, cs, 'heel_deg'), heel, True, loc, I, 'heel')
    ctx.eq('angles-kept', 'leeway', ctx.attr(I, cs, 'leeway_deg'), lee, True, loc, I, 'leeway')
    # default frame: no rotation
    I2 = ctx.interp()
    c0 = ctx.call(I2, C)
    for z, nm in (('+', 'above water'), ('-', 'mirrored')):
        p = point('q' + nm[0], z)
        ctx.eq('no-angle-no-rotation', nm, ctx.call(I2, ctx.attr(I2, c0, 'rotate_point_with_mirror'), p), p.a, True, loc, I2, 'point')


def centreline(ctx):
    heel, lee = angles()
    for n in (1, 2, 4):
        I = ctx.interp()
        cs = ctx.call(I, C, heel, lee, vec('ref'))
        v = tensor('v', (n, 3))
        loc = ctx.anchorloc(C)
        f = ctx.attr(I, cs, 'from_xyz_to_centerline_csys')
        r = ctx.call(I, f, v)
        opposite = npa(r)
        back = np.array([rotz(x, d2r(lee)) for x in v.a], dtype=object)
        want = np.array([rotz(x, g_neg(d2r(lee))) for x in v.a], dtype=object)
        inst = '%d vector%s' % (n, 's' if n > 1 else '')
        # the pinned code turns by +leeway (see known_findings.txt); that exact deviation is reported under its own instance
        if opposite is not None and opposite.shape == back.shape and all(
                ctx.equal(x, y).kind in ('proved', 'agree') for x, y in zip(opposite.ravel(), back.ravel())):
            ctx.fact('centreline-vectors', 'turned by +leeway instead of -leeway', False,
                     'course-frame vectors are turned by +leeway about the vertical axis', loc)
        else:
            ctx.eq('centreline-vectors', inst, r, want, True, loc, I, 'centreline vector')
        # and it is a rigid rotation that keeps the vertical component in any case
        if opposite is not None and opposite.shape == back.shape:
            for k in range(n):
                ctx.eq('centreline-rigid', '%s, length of vector %d' % (inst, k), dot(opposite[k], opposite[k]), dot(v.a[k], v.a[k]), True, loc, I, 'squared length')
                ctx.eq('centreline-rigid', '%s, vertical of vector %d' % (inst, k), opposite[k][2], v.a[k][2], True, loc, I, 'vertical component')
    I = ctx.interp()
    cs = ctx.call(I, C, heel, lee, vec('ref'))
    v = tensor('m', (4, 3))
    loc = ctx.anchorloc(C)
    f = ctx.attr(I, cs, 'calc_centerline_moments')
    g = ctx.attr(I, cs, 'from_xyz_to_centerline_csys')
    if f is not UNSET:
        r = ctx.call(I, f, v)
        w = npa(ctx.call(I, g, v))
        if isinstance(r, tuple) and len(r) == 2:
            ctx.eq('centreline-moments', 'all', r[0], w, True, loc, I, 'centreline moments')
            ctx.eq('centreline-moments', 'above water total', r[1], vadd(w[0], w[1]), True, loc, I, 'above water total')
        else:
            ctx.fact('centreline-moments', 'result', None, 'not a pair', loc)


def keel(ctx):
    heel, lee = angles()
    for sign, nm in (('-', 'below water'), ('+', 'above water'), (None, 'anywhere')):
        I = ctx.interp()
        cs = ctx.call(I, C, heel, lee, vec('ref'))
        clr = point('clr', sign)
        hull = ctx.call(I, 'yacht_geometry.hull_geometry.HullGeometry', sc('sheer', '+'), sc('base', '+'), cs, clr)
        ctx.eq('keel-not-mirrored', 'centre of lateral resistance ' + nm, ctx.attr(I, hull, 'center_of_lateral_resistance'),
               heeled(clr.a, heel, lee), True, ctx.anchorloc('yacht_geometry.hull_geometry.HullGeometry'), I, 'centre of lateral resistance')


def luff(ctx):
    """rotation about a luff line: every point by its own angle, rigidly"""
    for n, same_ in ((1, False), (2, False), (3, False), (2, True), (3, True)):
        I = ctx.interp()
        gc = ctx.get(I, 'yacht_geometry.sail_geometry.SailGeometry')
        o = OpaqueInst('sail', {}, gc)
        ps = tensor('p', (n, 3))
        p1, p2 = vec('u'), vec('w')
        if same_:
            t = sc('tw', rng=(-60, 60))
            tw = Arr(np.array([t] * n + [None], dtype=object)[:-1], 'f')
        else:
            tw = tensor('tw', (n,), rng=(-60, 60))
        f = ctx.attr(I, o, 'rotate_points_around_le')
        if f is UNSET:
            return
        r = ctx.call(I, f, ps, p1, p2, tw)
        ax = unit(vsub(p2.a, p1.a))
        want = np.array([vadd(p1.a, rodrigues(vsub(q, p1.a), ax, d2r(tw.a[k]))) for k, q in enumerate(ps.a)], dtype=object)
        ctx.eq('rotation-about-luff', '%d points, %s twist' % (n, 'equal' if same_ else 'own'), r, want, True,
               ctx.anchorloc('yacht_geometry.sail_geometry.SailGeometry'), I, 'twisted points')


STEPS = [matrices, arbitrary_axis, frames, centreline, keel, luff]
