"""P10  Totals and moments cover the above-water sails about the requested reference."""
from props.common import *
from props.results import *
from props.p08 import meth

TITLE = 'Totals and moments cover the above-water sails about the requested reference'
RULE = ('Every row of the integral table, the moment arms, the keel reaction and the centre of effort of a result over symbolic forces, '
        'points and reference are compared with sums of arm cross force over the panels they name.')
MIN = 60
F_ = 'solver.forces.'


def arm(p, ref, above):
    return np.array([g_sub(p[0], ref[0]), g_sub(p[1], ref[1]), g_sub(p[2], ref[2]) if above else g_add(p[2], ref[2])] + [None], dtype=object)[:-1]


def moment_arms(ctx):
    for n in (1, 2, 4, 6):
        I = ctx.interp()
        K = 2 * n
        cp = np.empty((K, 3), dtype=object)
        for k in range(K):
            cp[k] = [sc('x%d' % k), sc('y%d' % k), sc('z%d' % k, '+' if k < n else '-')]
        ref = vec('ref')
        f = ctx.get(I, F_ + 'calc_moment_arm_in_shifted_csys')
        r = ctx.call(I, f, Arr(cp, 'f'), ref)
        want = np.array([arm(cp[k], ref.a, k < n) for k in range(K)], dtype=object)
        loc = ctx.anchorloc(F_ + 'calc_moment_arm_in_shifted_csys')
        ctx.eq('moment-arm', '%d points' % K, r, want, True, loc, I, 'arm')
        fs = tensor('F', (K, 3))
        m = ctx.call(I, F_ + 'calc_moments', Arr(want, 'f'), fs)
        ctx.eq('moment', '%d panels' % K, m, np.array([cross(want[k], fs.a[k]) for k in range(K)], dtype=object), True,
               ctx.anchorloc(F_ + 'calc_moments'), I, 'moment')
        for shape, nm in (((K, 3), 'vectors'), ((K,), 'numbers')):
            q = tensor('q', shape)
            r = ctx.call(I, 'solver.additional_functions.extract_above_water_quantities', q)
            l = ctx.anchorloc('solver.additional_functions.extract_above_water_quantities')
            if not (isinstance(r, tuple) and len(r) == 2):
                ctx.fact('above-water-sum', '%d %s' % (K, nm), None, 'not a pair', l)
                continue
            ctx.eq('above-water-sum', '%d %s, part' % (K, nm), r[0], q.a[:n], True, l, I, 'above water part')
            tot = vadd(*q.a[:n]) if len(shape) == 2 else gsum(q.a[:n])
            ctx.eq('above-water-sum', '%d %s, total' % (K, nm), r[1], tot, True, l, I, 'above water total')


CASES = [(1, 1, 1, None), (1, 1, 2, None), (2, 1, 1, ['jib']), (2, 2, 2, None), (1, 3, 1, None), (3, 2, 2, None)]


def totals(ctx):
    more = [(2, 3, 2, None), (4, 2, 1, None), (3, 3, 2, None), (5, 1, 2, None)] if ctx.thorough else []
    for nc, ns, S, names in CASES + more:
        R = results(ctx, nc, ns, S, names=names)
        I, loc, K = R.I, R.loc, R.K
        ctx.no_raise('totals-available', R.name, I)
        h = K // 2
        per = nc * ns
        ref = R.ref.a
        F = R.F.a
        r = [arm(R.cp.a[k], ref, k < h) for k in range(K)]
        M = [cross(r[k], F[k]) for k in range(K)]
        Ft, Mt = vadd(*F[:h]), vadd(*M[:h])

        def cow(v):
            # the frame change itself is decided by P09; here: which vector is reported
            w = npa(meth(ctx, I, R.cs, 'from_xyz_to_centerline_csys', Arr(np.array([v], dtype=object), 'f')))
            return w[0]
        for keel in (False, True):
            if keel:
                clr = vec('clr')
                meth(ctx, I, R.res, 'estimate_heeling_moment_from_keel', clr)
                ctx.no_raise('keel-moment', R.name + ', total', I)
            d = one_df(ctx, 'integral-table', R.name, meth(ctx, I, R.res, 'to_df_integral'), loc)
            if d is None:
                continue
            inst = '%s%s' % (R.name, ', with keel' if keel else '')

            def vec_rows(rule, prefix, v, suffix=('x', 'y', 'z')):
                for i in range(3):
                    want_quantity(ctx, rule, inst, d, prefix + suffix[i], v[i], loc, I)
            W = ('x (heel)', 'y (pitch)', 'z (yaw)')
            vec_rows('total-force', 'F_sails_total_COG.', Ft)
            vec_rows('total-force', 'F_sails_total_COW.', cow(Ft))
            vec_rows('total-moment', 'M_sails_total_COG.', Mt)
            mw = cow(Mt)
            vec_rows('total-moment', 'M_sails_total_COW.', mw, W)
            want_quantity(ctx, 'total-moment', inst, d, 'M_sails_total_COW.z (yaw - JG sign)', g_neg(mw[2]), loc, I)
            for s, nm in enumerate(R.sailnames):
                own = range(s * per, (s + 1) * per)
                vec_rows('sail-force', 'F_%s_total_COG.' % nm, vadd(*[F[k] for k in own]))
                vec_rows('sail-moment', 'M_%s_total_COG.' % nm, vadd(*[M[k] for k in own]))
            if keel:
                Mk = cross(vsub(clr.a, ref), vscale(Ft, P(-1)))
                kw = cow(Mk)
                vec_rows('keel-moment', 'M_keel_total_COG.', Mk)
                vec_rows('keel-moment', 'M_keel_total_COW.', kw, W)
                want_quantity(ctx, 'keel-moment', inst, d, 'M_keel_total_COW.z (yaw - JG sign)', g_neg(kw[2]), loc, I)
                vec_rows('grand-total', 'M_total_COG.', vadd(Mt, Mk))
                tw = vadd(mw, kw)
                vec_rows('grand-total', 'M_total_COW.', tw, W)
                want_quantity(ctx, 'grand-total', inst, d, 'M_total_COW.z (yaw - JG sign)', g_neg(tw[2]), loc, I)
            else:
                extra = [x for x in (col(d, 'Quantity') or []) if isinstance(x, str) and ('keel' in x or x.startswith('M_total'))]
                ctx.fact('keel-moment', inst + ', absent', not extra, 'reports %s although no keel was given' % extra, loc)
        # centre of effort: (CE - ref) x F_total is the moment without its part along the force
        ce = ctx.attr(I, R.res, 'above_water_centre_of_effort_estimate_xyz')
        c = npa(ce)
        if ce is UNSET or c is None or c.shape != (3,):
            ctx.fact('centre-of-effort', R.name, None, 'centre of effort not available', loc)
            continue
        FF, MF = dot(Ft, Ft), dot(Mt, Ft)
        lhs = vscale(cross(vsub(c, ref), Ft), FF)
        rhs = vsub(vscale(Mt, FF), vscale(Ft, MF))
        ctx.eq('centre-of-effort', R.name, Arr(lhs, 'f'), rhs, True, ctx.locof(I, c[0], loc), I, 'moment of the total force at the centre of effort')


def vector_division(ctx):
    I = ctx.interp()
    F, r = vec('F'), vec('r')
    R = ctx.call(I, F_ + 'determine_vector_from_its_dot_and_cross_product', F, dot(r.a, F.a), Arr(cross(r.a, F.a), 'f'))
    ctx.eq('vector-from-products', 'any vector', R, r.a, True, ctx.anchorloc(F_ + 'determine_vector_from_its_dot_and_cross_product'), I, 'recovered vector')


STEPS = [moment_arms, totals, vector_division]
