"""P16  Each setting in the user case file drives exactly the quantity it documents."""
from props.cli import *
from props.p08 import meth, true_wind, app_wind, angle
from props.p09 import heeled
from props.p11 import arm3, chain, callee

TITLE = 'Each setting in the user case file drives exactly the quantity it documents'
RULE = ('The command-line entry point is interpreted with every setting of the case file a separate symbol; what reaches the solver, the '
        'tables and the drawing is compared with the model built from those settings; containers are checked field by field and '
        'for every omitted setting against the documented defaults.')
MIN = 150

CASES = [('jib_and_main', 1, 2, 'exponential', 'spline'), ('main', 2, 1, 'logarithmic', 'linear'), ('jib', 1, 2, 'flat', 'linear')]
MORE = [('jib_and_main', 2, 2, 'flat', 'linear'), ('main', 3, 2, 'exponential', 'spline'), ('jib', 2, 3, 'logarithmic', 'spline'),
        ('jib_and_main', 2, 1, 'logarithmic', 'spline')]


def np_(xs):
    return np.array(list(xs) + [None], dtype=object)[:-1]


def wiring(ctx):
    for sails, nc, ns, prof, interp in CASES + (MORE if ctx.thorough else []):
        r = run_main(ctx, nc, ns, sails, prof, interp)
        check_run(ctx, r, sails, prof, interp, 'setting')


def check_run(ctx, r, sails, prof, interp, pre, few=False):
    I, nc, ns, loc = r.I, r.nc, r.ns, r.loc
    inst = r.name
    ctx.no_raise(pre + '-run', inst, I)
    if len(r.calls) != 1:
        ctx.fact(pre + '-run', inst + ', one solution', False, '%d solutions are computed' % len(r.calls), loc)
        return
    c = r.calls[0]
    above, under = spec_panels(r.b, sails, nc, ns, interp)
    spec = np.concatenate([above, under])
    ctx.eq(pre + '-geometry', inst, c.get('panels', UNSET), spec, True, loc, I, 'panel corner')
    ctx.eq(pre + '-discretisation', inst + ', chordwise', c.get('n_chordwise', UNSET), nc, True, loc, I, 'n_chordwise')
    ctx.eq(pre + '-discretisation', inst + ', spanwise', c.get('n_spanwise', UNSET), ns, True, loc, I, 'n_spanwise')
    ctx.eq(pre + '-density', inst, c.get('rho', UNSET), r.b.rho, True, loc, I, 'rho')
    te, le = edge_flags(nc, ns)
    ctx.eq(pre + '-edges', inst + ', trailing', c.get('trailing_edge_info', UNSET), np_(te * (2 * r.S)), True, loc, I, 'trailing edge marks')
    ctx.eq(pre + '-edges', inst + ', leading', c.get('leading_edge_info', UNSET), np_(le * (2 * r.S)), True, loc, I, 'leading edge marks')
    w = c.get('wind', UNSET)
    if isinstance(w, Instance):
        h = sc('h', '+', rng=(0.5, 30))
        t = true_wind(prof, r.w, h)
        ctx.eq(pre + '-wind', inst + ', true wind', meth(ctx, I, w, 'get_true_wind_speed_at_h', h), t, True, loc, I, 'true wind')
        ctx.eq(pre + '-wind', inst + ', boat speed', meth(ctx, I, w, 'get_app_infs_at_h', A(t)), app_wind(prof, r.w, h), True, loc, I, 'apparent wind')
    else:
        ctx.fact(pre + '-wind', inst, None, 'wind not recognised', loc)
    tabs = {}
    for e in r.events:
        if e.kind == 'df_write':
            sn = e.data['kw'].get('sheet_name', e.data['args'][1] if len(e.data['args']) > 1 else 'Sheet1')
            tabs.setdefault(sn, []).append(e)
    H = r.K // 2
    if len(tabs.get('Components', [])) == 1:
        snap = dict((k, v) for k, v in tabs['Components'][0].data['snap'])
        cols = {'F_sails_COG.x': [f[0] for f in r.F.a[:H]], 'F_sails_COG.y': [f[1] for f in r.F.a[:H]], 'Circulation_magnitude': list(r.G.a[:H]),
                'Pressure': list(r.p.a[:H]), 'V_app_fs_COG.x': [v[0] for v in r.Vf.a[:H]], 'V_induced_COG.y': [v[1] for v in r.Vi.a[:H]],
                'sail_name': [n for n in SAIL_NAMES[sails] for _ in range(nc * ns)]}
        tw = [true_wind(prof, r.w, p[2]) for p in r.cp.a[:H]]
        aw = [app_wind(prof, r.w, p[2]) for p in r.cp.a[:H]]
        cols['TWS_COG.x'], cols['TWS_COG.y'], cols['V_app_infs_COG.x'] = [v[0] for v in tw], [v[1] for v in tw], [v[0] for v in aw]
        cols['AWA_infs_COW_deg'] = [g_sub(angle(v), r.b.lee) for v in aw]
        for n, v in cols.items():
            if n in snap:
                ctx.eq(pre + '-tables', '%s, %s' % (inst, n), PyList(list(snap[n])), np_(v), True, I.fmtloc(tabs['Components'][0].loc), I, n)
    else:
        ctx.fact(pre + '-tables', inst + ', Components', None, 'sheet not recognised', loc)
    if len(tabs.get('Integrals', [])) == 1:
        e = tabs['Integrals'][0]
        q = dict(zip(*[v for k, v in e.data['snap']][:2]))
        F = r.F.a
        ref = r.b.ref.a
        M = [cross(arm3(r.cp.a[k], ref, True), F[k]) for k in range(H)]
        Ft, Mt = vadd(*F[:H]), vadd(*M)
        # the keel does not belong to the mirror image: heeled as a point of the boat
        clr = heeled(r.b.clr.a, r.b.heel, r.b.lee)
        Mk = cross(vsub(clr, ref), vscale(Ft, P(-1)))
        want = {}
        for i, x in enumerate('xyz'):
            want['F_sails_total_COG.' + x], want['M_sails_total_COG.' + x], want['M_keel_total_COG.' + x] = Ft[i], Mt[i], Mk[i]
            want['M_total_COG.' + x] = g_add(Mt[i], Mk[i])
        for n, v in want.items():
            if n in q:
                ctx.eq(pre + '-reference-and-keel', '%s, %s' % (inst, n), q[n], v, True, I.fmtloc(e.loc), I, n)
            else:
                ctx.fact(pre + '-reference-and-keel', '%s, %s' % (inst, n), False, 'not reported', loc)
    else:
        ctx.fact(pre + '-reference-and-keel', inst, None, 'sheet not recognised', loc)
    if few:
        return
    # the case file is looked up in the directory of the command line before anything else
    rd = [i for i, e in enumerate(r.events) if e.kind == 'case_read']
    before = [e for e in r.events[:rd[0]] if e.kind == 'sys_path'] if rd else []
    key = lambda x: x.key() if isinstance(x, SStr) else x
    good = [e for e in before if e.data.get('op') == 'insert' and len(e.data['args']) == 2 and key(e.data['args'][1]) == r.dvars.key()
            and isinstance(e.data['args'][0], (int, Poly)) and P(e.data['args'][0]).const() == 0]
    known = bool(good) and before[-1] is good[-1]
    byfile = [e for e in r.events if e.kind == 'import_file' and isinstance(e.data.get('path'), SStr) and r.dvars.parts[0] in e.data['path'].parts]
    if byfile and not before:
        known, before = True, byfile
    ctx.fact('case-directory', inst, known if before else (False if rd else None),
             'the directory of the command line does not come first on the search path when the case file is loaded: %s' % [e.data for e in before], loc)
    deck(ctx, r)


def deck(ctx, r):
    """the drawn deck lies at the configured sheer height of the heeled boat and scales with the foretriangle base"""
    I = r.I
    lines = [e for e in r.events if e.kind == 'extobj_call' and callee(e) in ('plot', 'plot3D') and len(e.data['args']) >= 3]
    lines = [e for e in lines if all(npa(x) is not None and npa(x).ndim == 1 for x in e.data['args'][:3])]
    if not lines:
        ctx.fact('deck', r.name, None, 'deck lines not recognised', r.loc)
        return
    h, l = d2r(r.b.heel), d2r(r.b.lee)
    for n, e in enumerate(lines):
        xs, ys, zs = (npa(x) for x in e.data['args'][:3])
        for k in sorted({0, len(xs) // 2, len(xs) - 1}):
            p = rotz(np_([xs[k], ys[k], zs[k]]), g_neg(l))
            up, um = rotx(p, h), rotx(p, g_neg(h))
            loc = I.fmtloc(e.loc)
            s = r.b.rig['sheer_above_waterline']
            # above water: height s after heeling back; mirrored lines: the same below
            ok = [v for v in (ctx.equal(up[2], s), ctx.equal(um[2], g_neg(s))) if v.kind in ('proved', 'agree')]
            ctx.fact('deck', '%s, line %d, point %d' % (r.name, n, k), bool(ok), 'the deck is not drawn at the configured sheer height', loc)


# ---- containers --------------------------------------------------------------------------------------------------------
G_MAIN, G_JIB = [0, Q(1, 8), Q(1, 4), Q(1, 2), Q(3, 4), Q(7, 8), 1], [0, Q(1, 4), Q(1, 2), Q(3, 4), 1]
D = lambda *xs: [Q(str(x)) if isinstance(x, float) else x for x in xs]
DEFAULTS = {
    'Output': dict(file_name='my_fancy_results'),
    'Solver': dict(n_spanwise=4, n_chordwise=4, interpolation_type='spline', LLT_twist='real_twist'),
    'Conditions': dict(leeway_deg=5, heel_deg=10, SOG_yacht=Q('4.63'), tws_ref=Q('4.63'), alpha_true_wind_deg=50, reference_water_level_for_wind_profile=0,
                       wind_exp_coeff=Q('0.1428'), wind_reference_measurment_height=10, rho=Q('1.225'), wind_profile='exponential', roughness=Q('0.05')),
    'Rig': dict(main_sail_luff=Q('12.4'), jib_luff=10, foretriangle_height=Q('11.5'), foretriangle_base=Q('3.9'), sheer_above_waterline=Q('1.2'),
                boom_above_sheer=Q('1.3'), rake_deg=92, mast_LOA=Q('0.15'), sails_def='jib_and_main'),
    'MainSail': dict(girths=G_MAIN, chords=D(4, 3.82, 3.64, 3.2, 2.64, 2.32, 2), camber=[Q('0.05')] * 7, camber_distance_from_luff=[Q('0.5')] * 7,
                     centerline_twist_deg=[12 * g + 5 for g in G_MAIN]),
    'JibSail': dict(girths=G_JIB, chords=D(3.8, 2.98, 2.15, 1.33, 0.5), camber=[0] * 5, camber_distance_from_luff=[Q('0.5')] * 5,
                    centerline_twist_deg=[15 * g + 7 for g in G_JIB]),
    'Csys': dict(reference_level_for_moments=[0, 0, 0]),
    'Keel': dict(center_of_lateral_resistance_upright=[0, 0, -1]),
}
TWIST = {'MainSail': (12, 5), 'JibSail': (15, 7)}
FREE = {'sails_def': 'main', 'wind_profile': 'flat', 'interpolation_type': 'linear', 'n_spanwise': 7, 'n_chordwise': 3}


def value(v):
    if isinstance(v, (str, bool)):
        return v
    if isinstance(v, list):
        return np_([P(x) for x in v])
    return P(v)


def containers_(ctx):
    for cls, fields in DEFAULTS.items():
        I = ctx.interp()
        q = RC + cls
        loc = ctx.anchorloc(q) if ctx.get(I, q) else None
        o = ctx.call(I, q)
        ctx.no_raise('container', cls, I)
        for f, v in fields.items():
            ctx.eq('default', '%s.%s' % (cls, f), ctx.attr(I, o, f), value(v), True, loc, I, f)
        # one setting given: it is stored unchanged, the others keep their default
        for f in list(fields) + (['case_name', 'case_dir', 'name'] if cls == 'Output' else []):
            if f == 'LLT_twist':
                continue
            d = fields.get(f)
            if f in FREE:
                given = FREE[f]
            elif d is None or isinstance(d, str):
                given = strsym('given ' + f)
            elif isinstance(d, list):
                given = tensor('given.' + f, (len(d),))
            else:
                given = sc('given.' + f)
            o = ctx.call(I, q, **{f: given})
            ctx.no_raise('container', '%s(%s)' % (cls, f), I)
            for g, v in fields.items():
                w = given if g == f else value(v)
                if g == f and isinstance(given, Arr):
                    w = given.a
                if cls in TWIST and f == 'girths' and g == 'centerline_twist_deg':
                    a, b = TWIST[cls]
                    w = np_([g_add(g_mul(P(a), x), P(b)) for x in given.a])
                ctx.eq('stored-setting', '%s(%s).%s' % (cls, f, g), ctx.attr(I, o, g), w, True, loc, I, g)
            if f not in fields:
                ctx.eq('stored-setting', '%s(%s)' % (cls, f), ctx.attr(I, o, f), given, True, loc, I, f)


def omitted(ctx):
    """a run with a setting left out is the run with its documented default"""
    scal = [('conditions_args', k) for k in ('leeway_deg', 'heel_deg', 'SOG_yacht', 'tws_ref', 'alpha_true_wind_deg', 'reference_water_level_for_wind_profile',
                                             'wind_exp_coeff', 'wind_reference_measurment_height', 'rho')]
    rig = [('rig_args', k) for k in DEFAULTS['Rig'] if k != 'sails_def']
    groups = [scal, rig]
    if ctx.thorough:
        groups += [[x] for x in scal + rig] + [[('csys_args', 'reference_level_for_moments')], [('keel_args', 'center_of_lateral_resistance_upright')]]
    for gr in groups:
        b, w = full_boat(), wind_settings()
        for d, k in gr:
            dv = DEFAULTS[{'conditions_args': 'Conditions', 'rig_args': 'Rig', 'csys_args': 'Csys', 'keel_args': 'Keel'}[d]][k]
            v = value(dv)
            if d == 'rig_args':
                b.rig = dict(b.rig, **{k: v})
            elif k in ('leeway_deg', 'heel_deg', 'rho'):
                setattr(b, {'leeway_deg': 'lee', 'heel_deg': 'heel', 'rho': 'rho'}[k], v)
            elif d == 'conditions_args':
                setattr(w, {'SOG_yacht': 'sog', 'tws_ref': 'tws', 'alpha_true_wind_deg': 'alpha', 'reference_water_level_for_wind_profile': 'wl',
                            'wind_exp_coeff': 'k', 'wind_reference_measurment_height': 'href'}[k], v)
            elif d == 'csys_args':
                b.ref = Arr(v, 'f')
            else:
                b.clr = Arr(v, 'f')
        r = run_main(ctx, 1, 1, 'jib_and_main', 'exponential', 'linear', change={x: DROP for x in gr}, b=b, w=w)
        r.name += ', without ' + (gr[0][1] if len(gr) == 1 else gr[0][0])
        check_run(ctx, r, 'jib_and_main', 'exponential', 'linear', 'omitted', few=True)


STEPS = [wiring, containers_, omitted]
