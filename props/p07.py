"""P07  Panel forces follow the Kutta-Joukowski law; lift and drag split them exactly."""
from props.common import *
from props.p05 import elements

TITLE = 'Panel forces follow the Kutta-Joukowski law; lift and drag split them exactly'
RULE = ('Force, lift, drag, pressure and pressure coefficient of every panel are compared with the Kutta-Joukowski law written '
        'in the solution\'s own circulations, bound legs, elements and pressure points, for every combination of chordwise, '
        'spanwise and sail counts; the force function is also analysed on its own with unrelated symbolic arguments.')
MIN = 100
VLM = 'solver.vlm.Vlm'
FW = 'solver.forces.calc_force_wrapper'


def net(gam, k, nc, ns):
    """circulation of the bound leg of panel k"""
    if (k % (nc * ns)) // ns == 0:
        return gam[k]
    return g_sub(gam[k], gam[k - ns])


def laws(m, V, v, gam, span, rho):
    ind = [vadd(*[vscale(v[i][j], gam[j]) for j in range(m.K)]) for i in range(m.K)]
    tot = [vadd(V[i], ind[i]) for i in range(m.K)]
    leg = [vscale(span[k], net(gam, k, m.nc, m.ns)) for k in range(m.K)]
    f = lambda u: np.array([vscale(cross(u[k], leg[k]), rho) for k in range(m.K)], dtype=object)
    return np.array(ind, dtype=object), np.array(tot, dtype=object), f


def solution(ctx):
    for nc, ns, S in grids(ctx):
        m = make_vlm(ctx, nc, ns, S)
        loc = ctx.anchorloc(VLM)
        A = lambda n: npa(at(ctx, m, n))
        rings, cp, nrm, span, gam, areas = (A(n) for n in ('rings', 'cp', 'normals', 'span_vectors', 'gamma_magnitude', 'areas'))
        V = npa(ctx.attr(m.I, ctx.attr(m.I, m.vlm, 'inlet_conditions'), 'V_app_infs'))
        g = ctx.attr(m.I, m.vlm, 'gamma_orientation')
        v = let_val(m.I, Arr(np.array(elements(m, rings, cp, V, g), dtype=object), 'f')).a
        ind, tot, f = laws(m, V, v, gam, span, m.rho)
        ctx.eq('induced-velocity-at-pressure-point', m.name, A('V_induced_at_cp'), ind, m.pc, loc, m.I, 'Vlm.V_induced_at_cp')
        ctx.eq('velocity-at-pressure-point', m.name, A('V_app_fs_at_cp'), tot, m.pc, loc, m.I, 'Vlm.V_app_fs_at_cp')
        # the same laws in the named velocities
        li, lt = A('V_induced_at_cp'), A('V_app_fs_at_cp')
        ctx.eq('force', m.name, A('force'), f(lt), m.pc, loc, m.I, 'Vlm.force')
        ctx.eq('lift', m.name, A('lift'), f(V), m.pc, loc, m.I, 'Vlm.lift')
        ctx.eq('drag', m.name, A('drag'), f(li), m.pc, loc, m.I, 'Vlm.drag')
        F = f(lt)
        pr = np.array([g_div(dot(F[k], nrm[k]), areas[k]) for k in range(m.K)], dtype=object)
        ctx.eq('pressure', m.name, A('pressure'), pr, m.pc, loc, m.I, 'Vlm.pressure')
        got = A('pressure')
        cpc = np.array([g_div(pr[k], g_mul(half(m.rho), dot(V[k], V[k]))) for k in range(m.K)], dtype=object)
        ctx.eq('pressure-coefficient', m.name, A('p_coeffs'), cpc, m.pc, loc, m.I, 'Vlm.p_coeffs')


def wrapper(ctx):
    """the force function with unrelated arguments"""
    for nc, ns, S in grids(ctx):
        K = 2 * nc * ns * S
        m = Model()
        m.K, m.nc, m.ns, m.S = K, nc, ns, S
        m.te, le = flags(nc, ns, S)
        V, gam, rho, cp = tensor('V', (K, 3)), tensor('G', (K,)), sc('rho', '+'), tensor('cp', (K, 3))
        rings, nrm, span, g = tensor('R', (K, 4, 3)), tensor('n', (K, 3)), tensor('bc', (K, 3)), sc('orient')
        v = elements(m, rings.a, cp.a, V.a, g)
        name = '%dx%d panels, %d sails' % (nc, ns, S)
        res = {}
        for kind in ('force_xyz', 'lift', 'drag', None):
            I = ctx.interp(CUTS_VORTEX)
            I.cuts[COEFS + 'calc_velocity_coefs'] = cut_let
            I.cuts[VEL + 'calculate_app_fs'] = cut_let
            args = [V, gam, rho, cp, rings, ns, nrm, span, barr(m.te), barr(le)]
            r = ctx.call(I, FW, *args, **dict({'gamma_orientation': g}, **({} if kind is None else {'force_name': strval(kind)})))
            loc = ctx.anchorloc(FW)
            nm = '%s, %s' % (name, kind or 'default')
            ctx.no_raise('force-total', nm, I)
            if not isinstance(r, tuple) or len(r) != 3:
                ctx.add('kind-' + str(kind), nm, 'unknown', 'does not return force and velocities', loc)
                continue
            lv = let_val(I, Arr(np.array(v, dtype=object), 'f')).a
            ind, tot, f = laws(m, V.a, lv, gam.a, span.a, rho)
            li, lt = npa(r[2]), npa(r[1])
            ctx.eq('kind-induced', nm, li, ind, I.pc, loc, I, 'induced velocity')
            ctx.eq('kind-velocity', nm, lt, tot, I.pc, loc, I, 'velocity')
            if lt is None or li is None or lt.shape != (K, 3) or li.shape != (K, 3):
                continue
            ctx.eq('kind-' + str(kind or 'default'), nm, r[0], f({'lift': V.a, 'drag': li}.get(kind, lt)), I.pc, loc, I, 'force')
            res[kind] = npa(r[0])
        if all(k in res for k in ('force_xyz', 'lift', 'drag')) and all(x.shape == (K, 3) for x in res.values()):
            s = np.array([vadd(res['lift'][k], res['drag'][k]) for k in range(K)], dtype=object)
            ctx.eq('lift-plus-drag-is-force', name, unlet_arr(res['force_xyz'], ind, tot), unlet_arr(s, ind, tot), True, loc, None, 'force')


def unlet_arr(a, *k):
    return a


def strval(s):
    return s


def pieces(ctx):
    for K in (1, 2, 3, 4):
        I = ctx.interp()
        F, n, a = tensor('F', (K, 3)), tensor('n', (K, 3)), tensor('a', (K,), '+')
        r = ctx.call(I, 'solver.forces.calc_pressure', F, n, a)
        ctx.eq('pressure-law', '%d panels' % K, r, np.array([g_div(dot(F.a[k], n.a[k]), a.a[k]) for k in range(K)] + [None], dtype=object)[:-1],
               True, ctx.anchorloc('solver.forces.calc_pressure'), I, 'pressure')
        I = ctx.interp()
        p, rho, V = tensor('p', (K,)), sc('rho', '+'), tensor('V', (K, 3))
        r = ctx.call(I, 'solver.forces.calc_pressure_coeff', p, rho, V)
        ctx.eq('pressure-coefficient-law', '%d panels' % K, r,
               np.array([g_div(p.a[k], g_mul(half(rho), dot(V.a[k], V.a[k]))) for k in range(K)] + [None], dtype=object)[:-1],
               True, ctx.anchorloc('solver.forces.calc_pressure_coeff'), I, 'pressure coefficient')
        S, Vi = sc('S', '+'), vec('V')
        tot = vadd(*[F.a[k] for k in range(K)])
        q = g_mul(g_mul(half(rho), dot(Vi.a, Vi.a)), S)
        for fn, want in (('get_vlm_CL_CD_free_wing', [tot[2], tot[0]]), ('get_vlm_Cxyz', list(tot))):
            I = ctx.interp()
            r = ctx.call(I, 'solver.coefs.' + fn, F, Vi, rho, S)
            if isinstance(r, tuple):
                r = PyList(list(r))
            ctx.eq('wing-coefficients', '%s, %d panels' % (fn, K), r, np.array([g_div(x, q) for x in want], dtype=object), True,
                   ctx.anchorloc('solver.coefs.' + fn), I, 'coefficients')


STEPS = [solution, wrapper, pieces]
