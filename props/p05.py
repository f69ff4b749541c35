"""P05  Circulations enforce no flow through the sails and results are gated on it."""
from props.common import *

TITLE = 'Circulations enforce no flow through the sails and results are gated on it'
RULE = ('Influence coefficients, right-hand side, circulations and velocities of a solution are compared entry by entry with '
        'the no-flow system built from the element contracts, the panels\' own control points, normals and apparent wind; the '
        'condition under which a solution exists at all must imply the boundary-condition check.')
MIN = 60
VLM = 'solver.vlm.Vlm'
TOL = Q(1, 10 ** 9)


def elements(m, rings, pts, V, g):
    """v[i][j]: velocity at point i per unit circulation of element j"""
    out = []
    for i in range(m.K):
        row = []
        for j in range(m.K):
            A, B, C, D = rings[j]
            row.append(shoe2_spec(pts[i], A, B, C, D, V[j], g) if m.te[j] else ring_spec(pts[i], A, B, C, D, g))
        out.append(row)
    return out


def system(ctx):
    for nc, ns, S in grids(ctx):
        m = make_vlm(ctx, nc, ns, S)
        loc = ctx.anchorloc(VLM)
        rings, ctr, nrm = (npa(at(ctx, m, n)) for n in ('rings', 'ctr_p', 'normals'))
        ic = ctx.attr(m.I, m.vlm, 'inlet_conditions')
        V = npa(ctx.attr(m.I, ic, 'V_app_infs'))
        g = ctx.attr(m.I, m.vlm, 'gamma_orientation')
        v = elements(m, rings, ctr, V, g)
        A = np.array([[dot(v[i][j], nrm[i]) for j in range(m.K)] for i in range(m.K)], dtype=object)
        b = np.array([g_neg(dot(V[i], nrm[i])) for i in range(m.K)], dtype=object)
        ctx.eq('influence-velocity', m.name, at(ctx, m, 'v_ind_coeff'), np.array(v, dtype=object), m.pc, loc, m.I, 'Vlm.v_ind_coeff')
        ctx.eq('influence-coefficient', m.name, at(ctx, m, 'coeff'), A, m.pc, loc, m.I, 'Vlm.coeff')
        ctx.eq('right-hand-side', m.name, at(ctx, m, 'RHS'), b, m.pc, loc, m.I, 'Vlm.RHS')
        # the circulations solve exactly this system
        gam = npa(at(ctx, m, 'gamma_magnitude'))
        ctx.fact('one-circulation-per-panel', m.name, gam is not None and gam.shape == (m.K,), 'gamma_magnitude has not one value per panel', loc)
        if gam is not None and gam.shape == (m.K,):
            from sa.npmodel import solve_nd
            la, lb = let_val(m.I, Arr(A, 'f')).a, let_val(m.I, Arr(b, 'f')).a
            want = solve_nd(la, lb)
            ctx.eq('circulation', m.name, gam, want, m.pc, loc, m.I, 'Vlm.gamma_magnitude')
            lv = let_val(m.I, Arr(np.array(v, dtype=object), 'f')).a
            ind = np.array([vadd(*[vscale(lv[i][j], gam[j]) for j in range(m.K)]) for i in range(m.K)], dtype=object)
            ctx.eq('induced-velocity', m.name, at(ctx, m, 'V_induced_at_ctrl'), ind, m.pc, loc, m.I, 'Vlm.V_induced_at_ctrl')
            tot = np.array([vadd(V[i], ind[i]) for i in range(m.K)], dtype=object)
            ctx.eq('velocity-at-control-point', m.name, at(ctx, m, 'V_app_fs_at_ctrl_p'), tot, m.pc, loc, m.I, 'Vlm.V_app_fs_at_ctrl_p')
        ctx.eq('wind-at-pressure-points', m.name, ctx.attr(m.I, ic, 'cp_points'), npa(at(ctx, m, 'cp')), m.pc, loc, m.I, 'InletConditions.cp_points')


def gating(ctx):
    """with arbitrary circulations in place of the solved ones, a solution exists only where the check holds"""
    used = []

    def free(I, a, k):
        n = npa(a[1]).shape[0]
        used.append(n)
        return Arr(np.array([sc('G%d' % i) for i in range(n)] + [None], dtype=object)[:-1], 'f')
    for nc, ns, S in [(1, 1, 1), (2, 1, 1), (1, 1, 2)] + ([(2, 2, 1)] if ctx.thorough else []):
        m = make_vlm(ctx, nc, ns, S, cuts=dict(CUTS_VORTEX, **CUTS_LET, **{'numpy.linalg.solve': free}))
        loc = ctx.anchorloc(VLM)
        rings, ctr, nrm = (npa(at(ctx, m, n)) for n in ('rings', 'ctr_p', 'normals'))
        ic = ctx.attr(m.I, m.vlm, 'inlet_conditions')
        V = npa(ctx.attr(m.I, ic, 'V_app_infs'))
        g = ctx.attr(m.I, m.vlm, 'gamma_orientation')
        v = elements(m, rings, ctr, V, g)
        vel = let_val(m.I, Arr(np.array(v, dtype=object), 'f')).a
        G = [sc('G%d' % i) for i in range(m.K)]
        want = np.array([vadd(V[i], *[vscale(vel[i][j], G[j]) for j in range(m.K)]) for i in range(m.K)], dtype=object)
        tot = npa(at(ctx, m, 'V_app_fs_at_ctrl_p'))
        if used:
            ctx.eq('velocity-of-given-circulations', m.name, tot, want, True, loc, m.I, 'Vlm.V_app_fs_at_ctrl_p')
        if tot is None or tot.shape != want.shape:
            continue
        for i in range(m.K):
            fl = dot(tot[i], nrm[i])
            ctx.never('solution-implies-no-flux', '%s, panel %d' % (m.name, i), gt(g_abs(fl), P(TOL)), m.pc, loc,
                      'a solution is returned although air flows through panel %d' % i)
        if not m.raises:
            ctx.fact('solution-implies-no-flux', m.name, False, 'nothing can stop a solution that violates the boundary condition', loc)


CHK = 'solver.forces.is_no_flux_BC_satisfied'


def checker(ctx):
    for K in (1, 2, 3):
        I = ctx.interp()
        V, n, a, pan = tensor('V', (K, 3)), tensor('n', (K, 3)), tensor('a', (K,)), tensor('pan', (K, 4, 3))
        r = ctx.call(I, CHK, V, pan, a, n)
        loc = ctx.anchorloc(CHK)
        pc = I.pc
        ok = truth(r, pc)
        for k in range(K):
            fl = dot(V.a[k], n.a[k])
            ctx.never('check-rejects-flux', 'panel %d of %d' % (k, K), gt(g_abs(fl), P(TOL)), ok, loc, 'accepts a flow through panel %d' % k)
            ctx.never('check-rejects-degenerate-area', 'panel %d of %d' % (k, K), ge(ZERO, a.a[k]), ok, loc, 'accepts panel %d without area' % k)
        # and accepts what satisfies the boundary condition
        I = ctx.interp()
        n, w, a = tensor('n', (K, 3)), tensor('w', (K, 3)), tensor('a', (K,), rng=(0.001, 5))
        V = Arr(np.array([cross(n.a[k], w.a[k]) for k in range(K)], dtype=object), 'f')
        r = ctx.call(I, CHK, V, pan, a, n)
        ctx.no_raise('check-accepts-solution', '%d panels' % K, I)
        ctx.always('check-accepts-solution', '%d panels, value' % K, truth(r, True), True, loc, 'rejects a valid solution')
        # not a number anywhere is rejected
        for k in range(K):
            for what in ('area', 'velocity', 'normal'):
                I = ctx.interp()
                V, n, a = tensor('V', (K, 3)), tensor('n', (K, 3)), tensor('a', (K,), rng=(0.001, 5))
                if what == 'area':
                    a.a[k] = NAN
                elif what == 'velocity':
                    V.a[k, k % 3] = NAN
                else:
                    n.a[k, (k + 1) % 3] = NAN
                r = ctx.call(I, CHK, V, pan, a, n)
                ctx.never('check-rejects-nan', '%s of panel %d of %d' % (what, k, K), truth(r, I.pc), True, loc,
                          'accepts a %s that is not a number' % what)


def truth(r, pc):
    """condition under which the check returned and its value is true"""
    if isinstance(r, Opaque):
        return r
    if r is UNSET or pc is False:
        return False
    if r is None:
        return False
    t = lift(lambda l: bool(l) if isinstance(l, (bool, int)) else (l is not None and l is not UNSET and l is not BOT), r) if not isinstance(r, bool) else r
    return t if pc is True else g_and(pc, t)


def order(ctx):
    """nothing is reported on a path on which the check failed: with the check failing, no force is ever computed"""
    I = ctx.interp(dict(CUTS_VORTEX, **CUTS_LET))
    called = []

    def fail(I, f, args, kw):
        called.append(1)
        return False
    I.cuts[PKG + '.' + CHK] = fail
    m = Model()
    pan = sail_panels(2)
    ctx.call(I, VLM, pan, 1, 1, sc('rho', '+'), exp_wind(ctx, I), barr([True, True]), barr([False, False]))
    loc = ctx.anchorloc(VLM)
    if called:
        ctx.never('failed-check-stops', 'Vlm', I.pc, True, loc, 'a solution is returned although the boundary-condition check failed')


STEPS = [system, gating, checker, order]
