"""P08  True wind follows the selected profile; apparent wind adds the boat speed."""
from props.common import *

TITLE = 'True wind follows the selected profile; apparent wind adds the boat speed'
RULE = ('The wind vector of every profile at a symbolic height, the winds of every pressure point and the reported wind angles '
        'are compared with the profile laws and the vector sum, for the profile classes and for the profile the configuration selects.')
MIN = 60
W = 'inlet.winds.'
PROFILES = ('flat', 'logarithmic', 'exponential')


class Set:
    pass


def settings():
    s = Set()
    s.alpha, s.tws, s.sog = sc('alpha_deg', rng=(-170, 170)), sc('tws', '+'), sc('SOG', '+')
    s.z0, s.href, s.k = sc('z0', '+', rng=(0.001, 0.01)), sc('href', '+', rng=(5, 12)), sc('wexp', '+', rng=(0.05, 0.5))
    s.wl = g_neg(sc('wl', '0+'))
    return s


def strength(kind, s, h):
    if kind == 'flat':
        return s.tws
    if kind == 'logarithmic':
        return g_mul(s.tws, g_div(g_log(g_div(h, s.z0)), g_log(g_div(s.href, s.z0))))
    return g_mul(s.tws, g_pow(g_div(g_sub(h, s.wl), s.href), s.k))


def true_wind(kind, s, h):
    a, w = d2r(s.alpha), strength(kind, s, h)
    return np.array([g_mul(w, g_cos(a)), g_mul(w, g_sin(a)), ZERO], dtype=object)


def app_wind(kind, s, h):
    t = true_wind(kind, s, h)
    return vadd(t, [s.sog, ZERO, ZERO])


def conditions(ctx, I, s, kind, **k):
    kw = dict(leeway_deg=sc('leeway'), heel_deg=sc('heel'), SOG_yacht=s.sog, tws_ref=s.tws, alpha_true_wind_deg=s.alpha,
              reference_water_level_for_wind_profile=s.wl, wind_exp_coeff=s.k, wind_reference_measurment_height=s.href,
              rho=sc('rho', '+'), wind_profile=kind, roughness=s.z0)
    kw.update(k)
    return ctx.call(I, 'runner.container.Conditions', **kw)


def build(ctx, I, s, kind):
    if kind == 'flat':
        return ctx.call(I, W + 'FlatWindProfile', s.alpha, s.tws, s.sog)
    if kind == 'logarithmic':
        return ctx.call(I, W + 'LogWindProfile', s.alpha, s.tws, s.sog, roughness=s.z0, reference_measurment_height=s.href)
    return ctx.call(I, W + 'ExpWindProfile', s.alpha, s.tws, s.sog, exp_coeff=s.k, reference_measurment_height=s.href,
                    reference_water_level_for_wind_profile=s.wl)


def meth(ctx, I, o, name, *a):
    f = ctx.attr(I, o, name)
    if f is UNSET:
        raise Broken('method %s not found on %s' % (name, o))
    return ctx.call(I, f, *a)


def profiles(ctx):
    s = settings()
    h = sc('h', '+', rng=(0.5, 30))
    for kind in PROFILES:
        for how in ('class', 'selected'):
            I = ctx.interp()
            if how == 'class':
                w = build(ctx, I, s, kind)
                loc = ctx.anchorloc(W + {'flat': 'Flat', 'logarithmic': 'Log', 'exponential': 'Exp'}[kind] + 'WindProfile')
            else:
                w = ctx.call(I, 'runner.sail.Wind', conditions(ctx, I, s, kind))
                loc = ctx.anchorloc('runner.sail.Wind')
                ctx.no_raise('profile-selected', kind, I)
                w = ctx.attr(I, w, 'profile')
            inst = '%s (%s)' % (kind, how)
            t = meth(ctx, I, w, 'get_true_wind_speed_at_h', h)
            ctx.eq('true-wind', inst, t, true_wind(kind, s, h), True, loc, I, 'true wind')
            ctx.no_raise('wind-total', inst, I)
            # reference speed at the reference height
            ref = s.href if kind != 'exponential' else g_add(s.href, s.wl)
            t = meth(ctx, I, w, 'get_true_wind_speed_at_h', ref)
            a = d2r(s.alpha)
            ctx.eq('reference-speed', inst, t, np.array([g_mul(s.tws, g_cos(a)), g_mul(s.tws, g_sin(a)), ZERO], dtype=object), True,
                   loc, I, 'true wind at the reference height')
            v = vec('t')
            r = meth(ctx, I, w, 'get_app_infs_at_h', v)
            ctx.eq('apparent-wind', inst, r, vadd(v.a, [s.sog, ZERO, ZERO]), True, loc, I, 'apparent wind')


def angle(v):
    return r2d(g_atan2(v[1], v[0]))


def points(ctx):
    s = settings()
    for kind in PROFILES:
        for K in (2, 4, 6):
            I = ctx.interp()
            w = build(ctx, I, s, kind)
            cp = np.empty((K, 3), dtype=object)
            hs = []
            for k in range(K):
                z = sc('z%d' % k, '+', rng=(0.5, 30))
                hs.append(z)
                cp[k] = [sc('x%d' % k), sc('y%d' % k), z if k < K // 2 else g_neg(z)]
            ic = ctx.call(I, 'inlet.inlet_conditions.InletConditions', w, sc('rho', '+'), Arr(cp, 'f'))
            loc = ctx.anchorloc('inlet.inlet_conditions.InletConditions')
            inst = '%s, %d points' % (kind, K)
            tw = np.array([true_wind(kind, s, z) for z in hs], dtype=object)
            aw = np.array([app_wind(kind, s, z) for z in hs], dtype=object)
            A = lambda n: ctx.attr(I, ic, n)
            ctx.eq('wind-at-point', inst, A('tws_at_cp'), tw, True, loc, I, 'true wind at pressure points')
            ctx.eq('wind-at-point', inst + ', length', A('tws_length_at_ctr_points'), np.array([norm(v) for v in tw], dtype=object), True, loc, I, 'true wind speed')
            ctx.eq('apparent-wind-at-point', inst, A('V_app_infs'), aw, True, loc, I, 'apparent wind at pressure points')
            ctx.eq('apparent-wind-at-point', inst + ', length', A('V_app_infs_length'), np.array([norm(v) for v in aw], dtype=object), True, loc, I, 'apparent wind speed')
            ang = np.array([angle(v) for v in aw], dtype=object)
            ctx.eq('apparent-wind-angle', inst, A('AWA_infs_deg'), ang, True, loc, I, 'apparent wind angle')
            ctx.eq('pressure-points-kept', inst, A('cp_points'), cp, True, loc, I, 'pressure points')
            lee = sc('leeway', rng=(-20, 20))
            cs = ctx.call(I, 'rotations.csys_transformations.CSYS_transformations', sc('heel', rng=(-40, 40)), lee, vec('ref'))
            d = one_df(ctx, 'apparent-wind-angle-table', inst, meth(ctx, I, ic, 'to_df_full', cs), loc)
            if d is not None:
                want_col(ctx, 'apparent-wind-angle-table', inst, d, 'AWA_infs_COG_deg', ang, loc, I)
                want_col(ctx, 'apparent-wind-angle-table', inst, d, 'AWA_infs_COW_deg', [g_sub(x, lee) for x in ang], loc, I)


def reference_table(ctx):
    s = settings()
    I = ctx.interp()
    w = build(ctx, I, s, 'exponential')
    lee = sc('leeway', rng=(-20, 20))
    cs = ctx.call(I, 'rotations.csys_transformations.CSYS_transformations', sc('heel', rng=(-40, 40)), lee, vec('ref'))
    loc = ctx.anchorloc(W + 'ExpWindProfile')
    d = one_df(ctx, 'reference-angle', 'exponential', meth(ctx, I, w, 'to_df_integral', cs), loc)
    if d is not None:
        a = angle(app_wind('exponential', s, s.href))
        want_quantity(ctx, 'reference-angle', 'exponential', d, 'AWA_infs_at_reference_height_COG_deg', a, loc, I)
        want_quantity(ctx, 'reference-angle', 'exponential', d, 'AWA_infs_at_reference_height_COW_deg', g_sub(a, lee), loc, I)


def infinite_sail_angle(ctx):
    """the closed formula for the apparent wind angle, where the wind comes from one side"""
    s = settings()
    s.alpha = sc('alpha_deg', rng=(5, 175))
    I = ctx.interp()
    w = build(ctx, I, s, 'flat')
    f = ctx.attr(I, w, 'get_app_alfa_infs_at_h')
    if f is UNSET:
        return
    t = true_wind('flat', s, ONE)
    r = ctx.call(I, f, Arr(t.copy(), 'f'))
    a = app_wind('flat', s, ONE)
    ctx.eq('apparent-angle-formula', 'one side', r, g_atan2(a[1], a[0]), True, ctx.anchorloc(W + 'FlatWindProfile'), I, 'apparent wind angle')


def flow_angle(ctx):
    """angle of the local apparent wind in the results"""
    from props.results import results
    for nc, ns, S in [(1, 1, 1), (2, 1, 2)]:
        R = results(ctx, nc, ns, S)
        loc = R.loc
        ang = [angle(v) for v in R.Vfs.a]
        d = one_df(ctx, 'flow-angle', R.name, meth(ctx, R.I, R.res, 'to_df_full'), loc)
        if d is not None:
            want_col(ctx, 'flow-angle', R.name, d, 'AWA_fs_COG_deg', ang, loc, R.I)
            want_col(ctx, 'flow-angle', R.name, d, 'AWA_fs_COW_deg', [g_sub(x, R.lee) for x in ang], loc, R.I)


STEPS = [profiles, points, reference_table, infinite_sail_angle, flow_angle]
