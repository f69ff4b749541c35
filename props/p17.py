"""P17  Results scale correctly with wind speed and air density."""
from props.common import *
from props.results import results
from props.p08 import settings, build, meth, PROFILES, W
from props.p09 import unit
from props.p12 import model as section_model
from props.p19 import wing_grids, WING, given

TITLE = 'Results scale correctly with wind speed and air density'
RULE = ('Every stage and the whole solution are interpreted twice: with symbolic inputs, and with all velocities multiplied by a symbolic '
        'factor s and the density by a symbolic factor k.  Each result of the second run must be the stated power of s and k times that of the first.')
MIN = 300

VEL_, CIRC, FORCE, INV = (1, 0), (1, 0), (2, 1), (0, 0)


def factors():
    return sc('s', '+', rng=(0.4, 2.5)), sc('k', '+', rng=(0.4, 2.5))


def mono(e):
    s, k = factors()
    r = ONE
    for x, n in ((s, e[0]), (k, e[1])):
        for _ in range(n):
            r = g_mul(r, x)
    return r


def times(v, e):
    """the value v, scaled"""
    c = mono(e)
    f = lambda x: x if x is NAN or isinstance(x, (bool, str)) else g_mul(x, c)
    if isinstance(v, Arr):
        return Arr(np.vectorize(f, otypes=[object])(v.a), 'f')
    if isinstance(v, np.ndarray):
        return np.vectorize(f, otypes=[object])(v)
    return f(v)


def check(ctx, rule, inst, scaled, base, e, assume, loc, I, name):
    """scaled == s^a k^b base"""
    if isinstance(base, PyList) and isinstance(base.v, tuple) or isinstance(base, tuple):
        b = base if isinstance(base, tuple) else base.v
        a = scaled.v if isinstance(scaled, PyList) else scaled
        if not isinstance(a, tuple) or len(a) != len(b):
            return ctx.add(rule, inst, 'unknown', 'the number of results depends on the speed', loc)
        for i, (x, y) in enumerate(zip(a, b)):
            check(ctx, rule, '%s[%d]' % (inst, i), x, y, e, assume, loc, I, name)
        return
    if isinstance(base, Arr):
        if not isinstance(scaled, Arr):
            return ctx.add(rule, inst, 'unknown', 'not an array: %s' % (scaled,), loc)
        return ctx.eq(rule, inst, scaled, times(base, e).a, assume, loc, I, name)
    if isinstance(base, (Poly, DD)) and not has_obj(base):
        return ctx.eq(rule, inst, scaled, times(base, e), assume, loc, I, name)
    ctx.add(rule, inst, 'unknown', 'no numeric result: %s' % (base,), loc)


def fast(st):
    """the settings with every speed multiplied"""
    import copy
    s, k = factors()
    o = copy.copy(st)
    o.tws, o.sog = g_mul(st.tws, s), g_mul(st.sog, s)
    return o


# ------------------------------------------------------------------------------------------------- winds
def winds(ctx):
    st = settings()
    h = sc('h', '+', rng=(0.5, 30))
    for kind in PROFILES:
        out = []
        for x in (st, fast(st)):
            I = ctx.interp()
            w = build(ctx, I, x, kind)
            loc = ctx.anchorloc(W + {'flat': 'Flat', 'logarithmic': 'Log', 'exponential': 'Exp'}[kind] + 'WindProfile')
            cp = np.empty((4, 3), dtype=object)
            for j in range(4):
                z = sc('z%d' % j, '+', rng=(0.5, 30))
                cp[j] = [sc('x%d' % j), sc('y%d' % j), z if j < 2 else g_neg(z)]
            rho = sc('rho', '+') if x is st else g_mul(sc('rho', '+'), factors()[1])
            ic = ctx.call(I, 'inlet.inlet_conditions.InletConditions', w, rho, Arr(cp, 'f'))
            cs = ctx.call(I, 'rotations.csys_transformations.CSYS_transformations', sc('heel', rng=(-40, 40)), sc('leeway', rng=(-20, 20)), vec('ref'))
            t = meth(ctx, I, w, 'get_true_wind_speed_at_h', h)
            a = meth(ctx, I, w, 'get_app_infs_at_h', t)
            d = meth(ctx, I, ic, 'to_df_full', cs)
            q = meth(ctx, I, w, 'to_df_integral', cs)
            out.append((I, t, a, ic, d, q))
        (I, t, a, ic, d, q), (I2, t2, a2, ic2, d2, q2) = out
        check(ctx, 'wind-speed', kind + ', true wind', t2, t, VEL_, True, loc, I2, 'true wind')
        check(ctx, 'wind-speed', kind + ', apparent wind', a2, a, VEL_, True, loc, I2, 'apparent wind')
        for n, e in (('tws_at_cp', VEL_), ('tws_length_at_ctr_points', VEL_), ('V_app_infs', VEL_), ('V_app_infs_length', VEL_),
                     ('AWA_infs_deg', INV), ('cp_points', INV)):
            check(ctx, 'wind-at-points', '%s, %s' % (kind, n), ctx.attr(I2, ic2, n), ctx.attr(I, ic, n), e, True, loc, I2, n)
        tables(ctx, 'wind-table', kind, d2, d, loc, I2)
        tables(ctx, 'wind-reference-table', kind, q2, q, loc, I2)


DEGREE = [(r'AWA', INV), (r'cp_points', INV), (r'TWS', VEL_), (r'V_', VEL_), (r'Circulation', CIRC), (r'F_', FORCE), (r'M_', FORCE), (r'Pressure', FORCE),
          (r'Reference_|Not impl', INV)]


def degree(label):
    import re
    for r, e in DEGREE:
        if re.match(r, label):
            return e
    return None


def tables(ctx, rule, inst, d2, d, loc, I):
    d, d2 = one_df(ctx, rule, inst, d, loc), one_df(ctx, rule, inst, d2, loc)
    if d is None or d2 is None:
        return
    if 'Quantity' in labels(d):
        L = [x for x in col(d, 'Quantity')]
        pairs = [(l, quantity(d2, l), quantity(d, l)) for l in L if isinstance(l, str)]
    else:
        pairs = [(l, None if col(d2, l) is None else PyList(tuple(col(d2, l))), PyList(tuple(col(d, l)))) for l in labels(d) if isinstance(l, str)]
    for l, a, b in pairs:
        if a is None:
            ctx.fact(rule, '%s: %s' % (inst, l), False, 'is not reported at another speed', loc)
            continue
        vals = [x for x in (b.v if isinstance(b, PyList) else (b,))]
        if not all(isinstance(x, (Poly, DD)) and not has_obj(x) for x in vals):
            continue                       # texts
        e = degree(l)
        if e is not None:
            check(ctx, rule, '%s: %s' % (inst, l), arrof(a), arrof(b), e, True, loc, I, l)
            continue
        # a quantity this check does not know must still be homogeneous
        w = [any_equal(ctx, a, b, x) for x in ((0, 0), (1, 0), (2, 1), (2, 0), (0, 1))]
        ctx.fact(rule, '%s: %s' % (inst, l), any(w) or None, 'does not scale with any power', loc)


def any_equal(ctx, a, b, e):
    xs, ys = ((v.v if isinstance(v, PyList) else (v,)) for v in (a, b))
    return len(xs) == len(ys) and all(ctx.equal(x, times(y, e)) for x, y in zip(xs, ys))


def arrof(v):
    if isinstance(v, PyList):
        return Arr(np.array(list(v.v) + [None], dtype=object)[:-1], 'f')
    return v


# ------------------------------------------------------------------------------------------------- stages of the solver
def elements_(ctx):
    """the vortex elements: proportional to the circulation; of the free stream only the direction counts"""
    s, k = factors()
    g = sc('g')
    p, A, B, C, D, V = (vec(n) for n in ('p', 'A', 'B', 'C', 'D', 'V'))
    V2, g2 = times(V, VEL_), g_mul(g, s)
    for fn, pts, wind in (('vortex_line', (p, A, B), ()), ('vortex_infinite_line', (p, A), (V,)), ('vortex_ring', (p, A, B, C, D), ()),
                          ('vortex_horseshoe', (p, B, C), (V,)), ('vortex_horseshoe_v2', (p, A, B, C, D), (V,))):
        res = []
        for w, c in ((wind, g), ((V2,) if wind else (), g), (wind, g2)):
            I = ctx.interp()
            res.append((I, ctx.call(I, 'solver.velocity.' + fn, *[Arr(x.a.copy(), 'f') for x in pts + w], c)))
        loc = ctx.anchorloc('solver.velocity.' + fn)
        if wind:
            check(ctx, 'element-wind-speed', fn, res[1][1], res[0][1], INV, True, loc, res[1][0], fn)
        check(ctx, 'element-circulation', fn, res[2][1], res[0][1], CIRC, True, loc, res[2][0], fn)
    for nc, ns, S in [(1, 1, 1)] + ([(2, 1, 1), (1, 2, 1)] if ctx.thorough else []):
        K = 2 * nc * ns * S
        te, le = flags(nc, ns, S)
        V, ctr, rings, nrm, o = tensor('V', (K, 3)), tensor('ctr', (K, 3)), tensor('R', (K, 4, 3)), tensor('n', (K, 3)), sc('orient', rng=(0.5, 2))
        res = []
        for w in (V, times(V, VEL_)):
            I = ctx.interp()
            res.append((I, ctx.call(I, 'solver.coefs.calc_velocity_coefs', w, ctr, rings, nrm, barr(te), o)))
        check(ctx, 'influence-coefficients-in-full', '%dx%d panels' % (nc, ns), res[1][1], res[0][1], INV, True,
              ctx.anchorloc('solver.coefs.calc_velocity_coefs'), res[1][0], 'influence coefficients')


def stages(ctx):
    s, k = factors()
    for nc, ns, S in grids(ctx, small=not ctx.thorough):
        K = 2 * nc * ns * S
        te, le = flags(nc, ns, S)
        te, le = barr(te), barr(le)
        inst = '%dx%d panels, %d sail%s' % (nc, ns, S, 's' if S > 1 else '')
        V, G, rho, cp, ctr = tensor('V', (K, 3)), tensor('G', (K,)), sc('rho', '+'), tensor('cp', (K, 3)), tensor('ctr', (K, 3))
        rings, nrm, span, g = tensor('R', (K, 4, 3)), tensor('n', (K, 3)), tensor('bc', (K, 3)), sc('orient', rng=(0.5, 2))
        areas, F, p = tensor('A', (K,), '+'), tensor('F', (K, 3)), tensor('p', (K,))
        V2, G2, rho2, F2, p2 = times(V, VEL_), times(G, CIRC), g_mul(rho, k), times(F, FORCE), times(p, FORCE)
        cuts = dict(CUTS_VORTEX)

        def both(f, a, b, **kw):
            I, I2 = ctx.interp(cuts), ctx.interp(cuts)
            r, r2 = ctx.call(I, f, *[copy_(x) for x in a], **kw), ctx.call(I2, f, *[copy_(x) for x in b], **kw)
            return r, r2, ctx.anchorloc(f), I2

        def copy_(x):
            return Arr(x.a.copy(), x.dt) if isinstance(x, Arr) else x
        r, r2, l, I = both('solver.coefs.calc_velocity_coefs', [V, ctr, rings, nrm, te, g], [V2, ctr, rings, nrm, te, g])
        check(ctx, 'influence-coefficients', inst, r2, r, INV, True, l, I, 'influence coefficients')
        r, r2, l, I = both('solver.coefs.calculate_RHS', [V, nrm], [V2, nrm])
        check(ctx, 'right-hand-side', inst, r2, r, VEL_, True, l, I, 'right-hand side')
        v = tensor('vi', (K, K, 3))
        r, r2, l, I = both('solver.velocity.calculate_app_fs', [V, v, G], [V2, v, G2])
        check(ctx, 'local-velocity', inst, r2, r, VEL_, True, l, I, 'velocity')
        if K <= 6:
            A, b = tensor('M', (K, K)), tensor('b', (K,))
            r, r2, l, I = both('solver.coefs.solve_eq', [A, b], [A, times(b, VEL_)])
            check(ctx, 'circulation-of-system', inst, r2, r, CIRC, True, l, I, 'circulation')
        for kind in ('force_xyz', 'lift', 'drag'):
            a = [V, G, rho, cp, rings, ns, nrm, span, te, le, kind, g]
            b = [V2, G2, rho2] + a[3:]
            r, r2, l, I = both('solver.forces.calc_force_wrapper', a, b)
            if not (isinstance(r, tuple) and isinstance(r2, tuple) and len(r) == len(r2) == 3):
                ctx.add('panel-force', '%s, %s' % (inst, kind), 'unknown', 'not a force and two velocities', l)
                continue
            check(ctx, 'panel-force', '%s, %s' % (inst, kind), r2[0], r[0], FORCE, True, l, I, kind)
            check(ctx, 'panel-force', '%s, %s, velocities' % (inst, kind), r2[1:], r[1:], VEL_, True, l, I, 'velocity')
        r, r2, l, I = both('solver.forces.calc_pressure', [F, nrm, areas], [F2, nrm, areas])
        check(ctx, 'pressure', inst, r2, r, FORCE, True, l, I, 'pressure')
        r, r2, l, I = both('solver.forces.calc_pressure_coeff', [p, rho, V], [p2, rho2, V2])
        check(ctx, 'pressure-coefficient', inst, r2, r, INV, True, l, I, 'pressure coefficient')
        for fn, a, b in (('get_vlm_Cxyz', [F, vec('U'), rho, sc('S', '+')], [F2, times(vec('U'), VEL_), rho2, sc('S', '+')]),
                         ('get_vlm_CL_CD_free_wing', [F, vec('U'), rho, sc('S', '+')], [F2, times(vec('U'), VEL_), rho2, sc('S', '+')])):
            r, r2, l, I = both('solver.coefs.' + fn, a, b)
            check(ctx, 'wing-coefficients', '%s, %s' % (fn, inst), r2, r, INV, True, l, I, 'coefficients')
        pan = tensor('P', (K, 4, 3))
        r, r2, l, I = both('solver.coefs.get_C', [pan, areas, F, V, ns, nc, rho], [pan, areas, F2, V2, ns, nc, rho2])
        check(ctx, 'section-coefficients', inst, r2, r, INV, True, l, I, 'section coefficients')


def section_curves(ctx):
    s, k = factors()
    for nc, ns, S in grids(ctx, small=True):
        K = 2 * nc * ns * S
        res = []
        for f in (False, True):
            I = ctx.interp()
            m = section_model(K)
            if f:
                for n in ('lift', 'drag', 'force'):
                    m[n] = times(m[n], FORCE)
                m['wind'], m['rho'] = times(m['wind'], VEL_), g_mul(m['rho'], k)
            vc = ctx.get(I, 'solver.vlm.Vlm')
            ic = OpaqueInst('inlet conditions', dict(V_app_infs=m['wind'], cp_points=m['cp'], rho=m['rho']), None)
            o = OpaqueInst('solution', dict(panels=m['panels'], areas=m['areas'], lift=m['lift'], drag=m['drag'], force=m['force'], cp=m['cp'],
                                            inlet_conditions=ic, n_spanwise=ns, n_chordwise=nc, rho=m['rho']), vc)
            solver = OpaqueInst('solver', dict(n_spanwise=ns, n_chordwise=nc), None)
            res.append((I, ctx.call(I, 'solver.coefs.get_data_for_coeff_plot', o, solver)))
        check(ctx, 'section-curves', '%dx%d panels, %d sail%s' % (nc, ns, S, 's' if S > 1 else ''), res[1][1], res[0][1], INV, True,
              ctx.anchorloc('solver.coefs.get_data_for_coeff_plot'), res[1][0], 'section coefficients and heights')


# ------------------------------------------------------------------------------------------------- reports
def reports(ctx):
    f1, f2 = mono((1, 0)), mono((2, 1))
    sc_ = dict(F=f2, p=f2, V=f1, Vind=f1, Vfs=f1, G=f1)
    for nc, ns, S in [(1, 1, 1), (2, 1, 2), (2, 2, 1)] + ([(3, 2, 2), (1, 3, 2), (3, 1, 1)] if ctx.thorough else []):
        for keel in (False, True):
            d = []
            for scale in (None, sc_):
                R = results(ctx, nc, ns, S, scale=scale)
                if keel:
                    meth(ctx, R.I, R.res, 'estimate_heeling_moment_from_keel', vec('clr'))
                d.append((R, None if keel else meth(ctx, R.I, R.res, 'to_df_full'), meth(ctx, R.I, R.res, 'to_df_integral')))
            inst = R.name + (', with keel' if keel else '')
            if not keel:
                tables(ctx, 'panel-table', inst, d[1][1], d[0][1], R.loc, R.I)
                check(ctx, 'centre-of-effort', inst, *[ctx.attr(x[0].I, x[0].res, 'above_water_centre_of_effort_estimate_xyz') for x in (d[1], d[0])], INV, True,
                      R.loc, R.I, 'centre of effort')
            tables(ctx, 'total-table', inst, d[1][2], d[0][2], R.loc, R.I)


# ------------------------------------------------------------------------------------------------- whole solutions
QUANT = [('areas', INV), ('normals', INV), ('ctr_p', INV), ('cp', INV), ('rings', INV), ('span_vectors', INV), ('gamma_magnitude', CIRC), ('force', FORCE),
         ('lift', FORCE), ('drag', FORCE), ('pressure', FORCE), ('p_coeffs', INV), ('V_app_fs_at_cp', VEL_), ('V_induced_at_cp', VEL_)]


def whole(ctx):
    st = settings()
    s, k = factors()
    shapes = [(1, 1, 1, 'exponential'), (2, 1, 1, 'flat'), (1, 2, 1, 'logarithmic'), (1, 1, 2, 'flat')]
    if ctx.thorough:
        shapes += [(2, 2, 1, 'exponential'), (2, 1, 2, 'logarithmic'), (3, 2, 1, 'flat')]
    for nc, ns, S, kind in shapes:
        ms = []
        for x, rho in ((st, sc('rho', '+')), (fast(st), g_mul(sc('rho', '+'), k))):
            m = Model()
            m.I = ctx.interp(dict(CUTS_VORTEX, **CUTS_LET))
            w = build(ctx, m.I, x, kind)
            K = 2 * nc * ns * S
            te, le = flags(nc, ns, S)
            m.vlm = ctx.call(m.I, 'solver.vlm.Vlm', sail_panels(K), nc, ns, rho, w, barr(te), barr(le))
            m.pc = m.I.pc
            ms.append(m)
        loc = ctx.anchorloc('solver.vlm.Vlm')
        inst = '%dx%d panels, %d sail%s, %s wind' % (nc, ns, S, 's' if S > 1 else '', kind)
        pc = g_and(ms[0].pc, ms[1].pc)
        for n, e in QUANT:
            v = [given(m.I, ctx.attr(m.I, m.vlm, n), m.pc) for m in ms]
            check(ctx, 'solution', '%s: %s' % (inst, n), v[1], v[0], e, pc, loc, ms[1].I, 'Vlm.' + n)


def wings(ctx):
    s, k = factors()
    for nc, ns in [(1, 1), (2, 2), (1, 3)]:
        ws = []
        for f in (False, True):
            I = ctx.interp(dict(CUTS_VORTEX, **CUTS_LET))
            V, rho = vec('V'), sc('rho', '+')
            if f:
                V, rho = times(V, VEL_), g_mul(rho, k)
            w = ctx.call(I, WING, sc('chord', '+'), sc('halfspan', '+', rng=(2, 6)), sc('AoA', rng=(1, 12)), ns, nc, V, rho=rho, gamma_orientation=sc('orient', rng=(0.5, 2)))
            ws.append((I, w, I.pc))
        loc = ctx.anchorloc(WING)
        pc = g_and(ws[0][2], ws[1][2])
        for n, e in (('force', FORCE), ('pressure', FORCE), ('Cxyz', INV), ('CL', INV), ('CD', INV), ('AR', INV), ('CL_theoretical', INV), ('CD_theoretical', INV)):
            v = [given(I, ctx.attr(I, w, n), q) for I, w, q in ws]
            check(ctx, 'wing', '%dx%d panels: %s' % (nc, ns, n), v[1], v[0], e, pc, loc, ws[1][0], n)


STEPS = [winds, elements_, stages, section_curves, reports, whole, wings]
