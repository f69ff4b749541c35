"""P06  Control points, normals, vortex rings and areas follow the panel geometry."""
from props.common import *

TITLE = 'Control points, normals, vortex rings and areas follow the panel geometry'
RULE = ('For panels with independent symbolic corners, every derived point, normal, ring corner, bound leg and area is '
        'compared with its definition, panel by panel, for every combination of chordwise, spanwise and sail counts.')
MIN = 60
FN = 'solver.coefs.calculate_vlm_variables'


def spec(pan, nc, ns, g):
    K = pan.shape[0]
    q = P(Q(1, 4))
    out = dict(normals=[], ctr_p=[], cp=[], rings=[], span=[], lead=[], trail=[])

    def bound(k):
        p1, p2, p3, p4 = pan[k]
        return vadd(p2, vscale(vsub(p1, p2), q)), vadd(p3, vscale(vsub(p4, p3), q))
    for k in range(K):
        p1, p2, p3, p4 = pan[k]
        le, te = vscale(vadd(p2, p3), P(Q(1, 2))), vscale(vadd(p1, p4), P(Q(1, 2)))
        d = vsub(te, le)
        out['lead'].append(le)
        out['trail'].append(te)
        out['ctr_p'].append(vadd(le, vscale(d, P(Q(3, 4)))))
        out['cp'].append(vadd(le, vscale(d, q)))
        n = cross(vsub(p3, p1), vsub(p4, p2))
        out['normals'].append([g_div(x, norm(n)) for x in n])
        B, C = bound(k)
        if (k % (nc * ns)) // ns == nc - 1:
            A, D = vadd(p1, vscale(vsub(p1, p2), q)), vadd(p4, vscale(vsub(p4, p3), q))
        else:
            A, D = bound(k + ns)
        out['rings'].append([A, B, C, D])
        out['span'].append(vscale(vsub(C, B), g))
    return out


NAMES = ['normals', 'ctr_p', 'cp', 'rings', 'span', 'lead', 'trail']
WHAT = dict(normals='panel normal', ctr_p='control point', cp='pressure point', rings='vortex ring', span='bound leg',
            lead='leading-edge midpoint', trail='trailing-edge midpoint')


def derived(ctx):
    for nc, ns, S in grids(ctx):
        I = ctx.interp()
        K = 2 * nc * ns * S
        pan = sail_panels(K)
        te, _ = flags(nc, ns, S)
        g = sc('orientation')
        r = ctx.call(I, FN, pan, barr(te), g, nc, ns)
        inst = '%dx%d panels, %d sails' % (nc, ns, S)
        loc = ctx.anchorloc(FN)
        w = spec(pan.a, nc, ns, g)
        if not isinstance(r, tuple) or len(r) != 7:
            ctx.add('derived', inst, 'unknown', 'does not return the seven panel quantities: %s' % (r,), loc)
            continue
        for x, n in zip(r, NAMES):
            ctx.eq(WHAT[n].replace(' ', '-'), inst, x, np.array(w[n], dtype=object), True, loc, I, WHAT[n])
        ctx.no_raise('derived-total', inst, I)


def wired(ctx):
    """the solution object exposes exactly these quantities of its own panels"""
    for nc, ns, S in grids(ctx, small=True):
        m = make_vlm(ctx, nc, ns, S)
        w = spec(m.panels.a, nc, ns, ONE)
        loc = ctx.anchorloc('solver.vlm.Vlm')
        g = ctx.attr(m.I, m.vlm, 'gamma_orientation')
        ok = isinstance(g, (Poly, int)) and num(g) is not None and num(g).const() in (1, -1)
        ctx.fact('orientation-unit', m.name, ok, 'gamma_orientation is %s, not a sign' % (g,), loc)
        for n, a in zip(NAMES, ['normals', 'ctr_p', 'cp', 'rings', 'span_vectors', 'leading_mid_points', 'trailing_mid_points']):
            want = np.array(w[n], dtype=object)
            if n == 'span' and ok:
                want = np.array([vscale(v, g) for v in want], dtype=object)
            ctx.eq('solution-' + WHAT[n].replace(' ', '-'), m.name, at(ctx, m, a), want, m.pc, loc, m.I, 'Vlm.' + a)
        ctx.eq('solution-panels', m.name, at(ctx, m, 'panels'), sail_panels(m.K).a, m.pc, loc, m.I, 'Vlm.panels')


def areas(ctx):
    fn = 'solver.panels.get_panels_area'
    for K in (1, 2, 5):
        I = ctx.interp()
        pan = np.empty((K, 4, 3), dtype=object)
        want = np.empty(K, dtype=object)
        for k in range(K):
            p2, e, d = vec('p2_%d' % k).a, vec('e%d' % k).a, vec('d%d' % k).a
            s = sc('s%d' % k, '+')
            pan[k, 1] = p2
            pan[k, 0] = vsub(p2, e)
            pan[k, 2] = vadd(p2, d)
            pan[k, 3] = vsub(vadd(p2, d), vscale(e, s))
            want[k] = g_mul(half(g_add(ONE, s)), norm(cross(e, d)))
        r = ctx.call(I, fn, Arr(pan, 'f'))
        ctx.eq('area-parallel-edges', '%d panels' % K, r, want, True, ctx.anchorloc(fn), I, 'area')
        ctx.no_raise('area-total', '%d panels' % K, I)
    # panel degenerated to a triangle (zero tip chord) still counts its exact area
    I = ctx.interp()
    pan = np.empty((1, 4, 3), dtype=object)
    p2, e, d = vec('p2').a, vec('e').a, vec('d').a
    pan[0] = [vsub(p2, e), p2, vadd(p2, d), vadd(p2, d)]
    r = ctx.call(I, fn, Arr(pan, 'f'))
    ctx.eq('area-parallel-edges', 'triangle', r, [half(norm(cross(e, d)))], True, ctx.anchorloc(fn), I, 'area')
    for nc, ns, S in grids(ctx, small=True):
        m = make_vlm(ctx, nc, ns, S, panels=parallel_panels(2 * nc * ns * S))
        want = np.array([g_mul(half(g_add(ONE, m.panels.s[k])), norm(cross(m.panels.e[k], m.panels.d[k]))) for k in range(m.K)], dtype=object)
        ctx.eq('solution-area', m.name, at(ctx, m, 'areas'), want, m.pc, ctx.anchorloc('solver.vlm.Vlm'), m.I, 'Vlm.areas')


class PArr(Arr):
    __slots__ = ('s', 'e', 'd')


def parallel_panels(K):
    pan = np.empty((K, 4, 3), dtype=object)
    S, E, D = [], [], []
    for k in range(K):
        z = {2: '+' if k < K // 2 else '-'}
        p2, e, d, s = vec('p2_%d' % k, z).a, vec('e%d' % k, {2: '-' if k < K // 2 else '+'}).a, vec('d%d' % k, z).a, sc('s%d' % k, '+')
        pan[k, 1], pan[k, 0], pan[k, 2] = p2, vsub(p2, e), vadd(p2, d)
        pan[k, 3] = vsub(vadd(p2, d), vscale(e, s))
        S.append(s), E.append(e), D.append(d)
    a = PArr(pan, 'f')
    a.s, a.e, a.d = S, E, D
    return a


STEPS = [derived, wired, areas]
