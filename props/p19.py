"""P19  The free-wing model solves the same equations as the sail model."""
from props.common import *
from props.p05 import elements
from props.p06 import spec as panel_spec, NAMES, WHAT

TITLE = 'The free-wing model solves the same equations as the sail model'
RULE = ('The wing is built with symbolic chord, span, incidence, free stream, density and vortex sign; the system handed to '
        'the linear solver, the forces for arbitrary circulations and every coefficient are compared with the same no-flow '
        'system, Kutta-Joukowski law and normalisation as for sails, written on the specified wing mesh.')
MIN = 60
WING = 'runner.aircraft.Aircraft'
MESH = 'solver.panels.make_panels_from_le_te_points'
QTY = 'solver.coefs.calculate_normals_collocations_cps_rings_spans_leading_trailing_mid_points'


def wing_grids(ctx):
    g = [(1, 1), (1, 2), (2, 1), (2, 2), (3, 2), (1, 3)]
    return g + [(2, 3), (4, 1), (1, 5)] if ctx.thorough else g


def wing_mesh(c, b, aoa, nc, ns):
    """grid points: chordwise along the chord turned by the incidence, spanwise along z from -b to b"""
    t = d2r(aoa)
    out = np.empty((nc + 1, ns + 1, 3), dtype=object)
    for i in range(nc + 1):
        for j in range(ns + 1):
            x = g_mul(c, P(Q(i, nc)))
            out[i, j] = [g_mul(x, g_cos(t)), g_neg(g_mul(x, g_sin(t))), g_mul(b, P(Q(2 * j - ns, ns)))]
    return out


def corners(mesh):
    nc, ns = mesh.shape[0] - 1, mesh.shape[1] - 1
    out = np.empty((nc * ns, 4, 3), dtype=object)
    for i in range(nc):
        for j in range(ns):
            out[i * ns + j] = [list(mesh[i + 1, j]), list(mesh[i, j]), list(mesh[i, j + 1]), list(mesh[i + 1, j + 1])]
    return out


def marks(nc, ns):
    return [i == nc - 1 for i in range(nc) for j in range(ns)], [i == 0 and nc > 1 for i in range(nc) for j in range(ns)]


def wing(ctx):
    for nc, ns in wing_grids(ctx):
        seen = []
        K = nc * ns
        G = tensor('G', (K,))

        def free(I, a, k):
            seen.append((I.asarray(a[0]), I.asarray(a[1])))
            return Arr(G.a.copy(), 'f')
        I = ctx.interp(dict(CUTS_VORTEX, **CUTS_LET, **{'numpy.linalg.solve': free}))
        c, b, aoa, rho = sc('chord', '+'), sc('halfspan', '+', rng=(2, 6)), sc('AoA', rng=(1, 12)), sc('rho', '+')
        V = vec('V')
        g = sc('orient', rng=(0.5, 2))
        w = ctx.call(I, WING, c, b, aoa, ns, nc, V, rho=rho, gamma_orientation=g)
        pc = I.pc
        loc = ctx.anchorloc(WING)
        name = '%dx%d panels' % (nc, ns)
        raises = list(I.raises[0])
        pan = corners(wing_mesh(c, b, aoa, nc, ns))
        m = Model()
        m.K, m.nc, m.ns = K, nc, ns
        m.te, m.le = marks(nc, ns)
        s = panel_spec(pan, nc, ns, g)
        Vs = [V.a] * K
        v = elements(m, s['rings'], s['ctr_p'], Vs, g)
        if len(seen) != 1:
            ctx.add('wing-system', name, 'unknown', 'the linear solver is called %d times' % len(seen), loc)
            continue
        A, rhs = seen[0]
        ctx.eq('wing-influence-coefficient', name, A, np.array([[dot(v[i][j], s['normals'][i]) for j in range(K)] for i in range(K)], dtype=object),
               True, loc, I, 'influence coefficient')
        ctx.eq('wing-right-hand-side', name, Arr(npa(rhs).reshape(-1), 'f'), np.array([g_neg(dot(V.a, s['normals'][i])) for i in range(K)] + [None], dtype=object)[:-1],
               True, loc, I, 'right-hand side')
        # forces for the given circulations
        vi = elements(m, s['rings'], s['cp'], Vs, g)
        tot = [vadd(V.a, *[vscale(vi[i][j], G.a[j]) for j in range(K)]) for i in range(K)]
        F = np.empty((K, 3), dtype=object)
        for k in range(K):
            net = G.a[k] if k < ns else g_sub(G.a[k], G.a[k - ns])
            F[k] = vscale(cross(tot[k], vscale(s['span'][k], net)), rho)
        # the values on the paths on which a wing is returned (free circulations meet the boundary condition nowhere else)
        P_ = lambda n: given(I, ctx.attr(I, w, n), pc)
        got = P_('force')
        ctx.eq('wing-force', name, got, F, True, loc, I, 'force')
        fa = npa(got)
        if fa is None or fa.shape != (K, 3):
            continue
        areas = g_div(g_mul(g_mul(P(2), b), c), P(K))
        pr = np.array([g_div(dot(fa[k], s['normals'][k]), areas) for k in range(K)] + [None], dtype=object)[:-1]
        ctx.eq('wing-pressure', name, P_('pressure'), pr, True, loc, I, 'pressure')
        total = vadd(*[fa[k] for k in range(K)])
        S = g_mul(g_mul(P(2), b), c)
        q = g_mul(g_mul(half(rho), dot(V.a, V.a)), S)
        ctx.eq('wing-coefficients', name, P_('Cxyz'), np.array([g_div(x, q) for x in total] + [None], dtype=object)[:-1], True, loc, I, 'Cxyz')
        ctx.eq('wing-lift-coefficient', name, P_('CL'), g_div(total[1], q), True, loc, I, 'CL')
        ctx.eq('wing-drag-coefficient', name, P_('CD'), g_div(total[0], q), True, loc, I, 'CD')
        AR = g_div(g_mul(P(2), b), c)
        ctx.eq('wing-aspect-ratio', name, P_('AR'), AR, True, loc, I, 'AR')
        cl, cd = theory(AR, aoa)
        ctx.eq('wing-theory', name + ', lift', P_('CL_theoretical'), cl, True, loc, I, 'CL_theoretical')
        ctx.eq('wing-theory', name + ', drag', P_('CD_theoretical'), cd, True, loc, I, 'CD_theoretical')
        # gating: a wing exists only where its boundary condition holds
        if not raises:
            ctx.fact('wing-implies-no-flux', name, False, 'nothing can stop a wing that violates the boundary condition', loc)
        elif K <= 2:
            vc = let_val(I, Arr(np.array(v, dtype=object), 'f')).a
            for i in range(K):
                fl = dot(vadd(V.a, *[vscale(vc[i][j], G.a[j]) for j in range(K)]), s['normals'][i])
                ctx.never('wing-implies-no-flux', '%s, panel %d' % (name, i), gt(g_abs(fl), P(Q(1, 10 ** 8))), pc, loc,
                          'a wing is returned although air flows through panel %d' % i)


def given(I, v, pc):
    if isinstance(v, Arr) and pc is not True:
        return Arr(np.vectorize(lambda x: restrict(x, pc) if isinstance(x, DD) else x, otypes=[object])(v.a), v.dt)
    return restrict(v, pc) if isinstance(v, DD) and pc is not True else v


def theory(AR, aoa):
    """lifting line with span efficiency 0.8"""
    piARe = g_mul(g_mul(PIP, AR), P(Q(4, 5)))
    a0 = g_mul(P(2), PIP)
    a = g_div(a0, g_add(ONE, g_div(a0, piARe)))
    cl = g_mul(a, d2r(aoa))
    return cl, g_div(g_mul(cl, cl), piARe)


def formula(ctx):
    I = ctx.interp()
    AR, aoa = sc('AR', '+'), sc('AoA')
    r = ctx.call(I, 'solver.coefs.get_CL_CD_free_wing', AR, aoa)
    loc = ctx.anchorloc('solver.coefs.get_CL_CD_free_wing')
    ctx.eq('lifting-line-formula', 'get_CL_CD_free_wing', PyList(list(r)) if isinstance(r, tuple) else r, np.array(list(theory(AR, aoa)), dtype=object),
           True, loc, I, 'theoretical coefficients')
    ctx.no_raise('lifting-line-total', 'get_CL_CD_free_wing', I)


def mesh(ctx):
    """the wing mesher on four arbitrary corners"""
    for nc, ns in wing_grids(ctx):
        I = ctx.interp()
        sw, se, nw, ne = (vec(n) for n in ('leSW', 'teSE', 'leNW', 'teNE'))
        r = ctx.call(I, MESH, I.mklist([sw, se, nw, ne]), I.mklist([nc, ns]))
        loc = ctx.anchorloc(MESH)
        name = '%dx%d panels' % (nc, ns)
        if not isinstance(r, tuple) or len(r) != 3:
            ctx.add('wing-mesh', name, 'unknown', 'does not return panels and edge marks', loc)
            continue
        grid = np.empty((nc + 1, ns + 1, 3), dtype=object)
        for i in range(nc + 1):
            for j in range(ns + 1):
                f, h = Q(i, nc), Q(j, ns)
                p = vadd(vscale(sw.a, P(1 - f)), vscale(se.a, P(f)))
                q = vadd(vscale(nw.a, P(1 - f)), vscale(ne.a, P(f)))
                grid[i, j] = vadd(vscale(p, P(1 - h)), vscale(q, P(h)))
        te, le = marks(nc, ns)
        ctx.eq('wing-mesh', name, r[0], corners(grid), True, loc, I, 'panel corner')
        ctx.eq('wing-trailing-marks', name, r[1], np.array(te, dtype=object), True, loc, I, 'trailing edge')
        ctx.eq('wing-leading-marks', name, r[2], np.array(le, dtype=object), True, loc, I, 'leading edge')
        ctx.no_raise('wing-mesh-total', name, I)


def quantities(ctx):
    """on evenly spaced straight rows the wing's panel quantities are those of the sails"""
    for nc, ns in wing_grids(ctx):
        grid = np.empty((nc + 1, ns + 1, 3), dtype=object)
        for j in range(ns + 1):
            le, d = vec('le%d' % j), vec('ch%d' % j)
            for i in range(nc + 1):
                grid[i, j] = vadd(le.a, vscale(d.a, P(Q(i, nc))))
        pan = corners(grid)
        g = sc('orientation')
        I = ctx.interp()
        r = ctx.call(I, QTY, Arr(pan.copy(), 'f'), g)
        loc = ctx.anchorloc(QTY)
        name = '%dx%d panels' % (nc, ns)
        w = panel_spec(pan, nc, ns, g)
        if not isinstance(r, tuple) or len(r) != 7:
            ctx.add('wing-quantities', name, 'unknown', 'does not return the seven panel quantities', loc)
            continue
        for x, n in zip(r, NAMES):
            ctx.eq('wing-' + WHAT[n].replace(' ', '-'), name, x, np.array(w[n], dtype=object), True, loc, I, WHAT[n])
        ctx.no_raise('wing-quantities-total', name, I)


STEPS = [wing, formula, mesh, quantities]
