"""P11  Every reported column holds the quantity its label names."""
from props.cli import *
from props.p08 import meth, angle, true_wind, app_wind, build
from props.p09 import heeled
from props.p12 import strips, section

TITLE = 'Every reported column holds the quantity its label names'
RULE = ('Every column and row of the panel, inlet, reference-height and merged tables, of the written sheets and of the drawn panels, '
        'arrows and section curves is compared with the quantity, component, frame, panel and sail its label names, for symbolic results.')
MIN = 150
XYZ = 'xyz'
SHEETS = ('Components', 'Integrals', 'IC_at_reference_height')


def comp(rows, i):
    return [r[i] for r in rows]


def panel_columns(ctx, R, to_cow):
    h = R.K
    r = [arm3(R.cp.a[k], R.ref.a, k < R.K // 2) for k in range(h)]
    M = [cross(r[k], R.F.a[k]) for k in range(h)]
    out = {'Circulation_magnitude': list(R.G.a), 'V_induced_length': [norm(v) for v in R.Vind.a], 'V_app_fs_length': [norm(v) for v in R.Vfs.a],
           'Pressure': list(R.p.a)}
    ang = [angle(v) for v in R.Vfs.a]
    out['AWA_fs_COG_deg'] = ang
    out['AWA_fs_COW_deg'] = [g_sub(a, R.lee) for a in ang]
    Fc = npa(to_cow(R.F))
    for i, c in enumerate(XYZ):
        for n, t in (('V_induced_COG.', R.Vind.a), ('V_app_fs_COG.', R.Vfs.a), ('F_sails_COG.', R.F.a), ('M_sails_COG.', M), ('F_sails_COW.', Fc)):
            out[n + c] = comp(t, i)
    return out


def arm3(p, ref, above):
    return np.array([g_sub(p[0], ref[0]), g_sub(p[1], ref[1]), g_sub(p[2], ref[2]) if above else g_add(p[2], ref[2])] + [None], dtype=object)[:-1]


def inlet_columns(cp, kind, s, lee):
    hs = [g_abs(p[2]) for p in cp]
    tw = [true_wind(kind, s, h) for h in hs]
    aw = [app_wind(kind, s, h) for h in hs]
    out = {'TWS_length': [norm(v) for v in tw], 'V_app_infs_length': [norm(v) for v in aw], 'AWA_infs_COG_deg': [angle(v) for v in aw]}
    out['AWA_infs_COW_deg'] = [g_sub(a, lee) for a in out['AWA_infs_COG_deg']]
    for i, c in enumerate(XYZ):
        for n, t in (('cp_points_COG.', cp), ('TWS_COG.', tw), ('V_app_infs_COG.', aw)):
            out[n + c] = comp(t, i)
    return out


def reference_rows(s, lee):
    t, a = true_wind('exponential', s, s.href), app_wind('exponential', s, s.href)
    out = {'Reference_measurement_height': s.href, 'Reference_water_level_for_wind_profile': s.wl, 'TWS_length_at_reference_height': norm(t),
           'V_app_infs_length_at_reference_height_COG': norm(a), 'AWA_infs_at_reference_height_COG_deg': angle(a),
           'AWA_infs_at_reference_height_COW_deg': g_sub(angle(a), lee)}
    for i, c in enumerate(XYZ):
        out['TWS_at_reference_height_COG.' + c] = t[i]
        out['V_app_infs_at_reference_height_COG.' + c] = a[i]
    return out


def panel_table(ctx):
    for nc, ns, S in [(1, 1, 1), (2, 1, 2), (1, 3, 1)]:
        R = results(ctx, nc, ns, S)
        d = one_df(ctx, 'panel-table', R.name, meth(ctx, R.I, R.res, 'to_df_full'), R.loc)
        if d is not None:
            for l, v in panel_columns(ctx, R, lambda F: meth(ctx, R.I, R.cs, 'from_xyz_to_centerline_csys', F)).items():
                want_col(ctx, 'panel-table', R.name, d, l, v, R.loc, R.I)


def inlet_table(ctx):
    s = wind_settings()
    for kind in ('exponential', 'logarithmic', 'flat'):
        I = ctx.interp()
        K = 4
        cp = np.array([[sc('x%d' % k), sc('y%d' % k), sc('z%d' % k, '+' if k < K // 2 else '-', rng=(0.5, 30) if k < K // 2 else (-30, -0.5))] for k in range(K)], dtype=object)
        ic = ctx.call(I, 'inlet.inlet_conditions.InletConditions', build(ctx, I, s, kind), sc('rho', '+'), Arr(cp, 'f'))
        cs, heel, lee, ref = frame(ctx, I)
        loc = ctx.anchorloc('inlet.inlet_conditions.InletConditions')
        d = one_df(ctx, 'inlet-table', kind, meth(ctx, I, ic, 'to_df_full', cs), loc)
        if d is not None:
            for l, v in inlet_columns(cp, kind, s, lee).items():
                want_col(ctx, 'inlet-table', kind, d, l, v, loc, I)
        if kind != 'exponential':
            continue
        w = ctx.attr(I, ic, 'winds')
        loc = ctx.anchorloc('inlet.winds.ExpWindProfile')
        d = one_df(ctx, 'reference-table', kind, meth(ctx, I, w, 'to_df_integral', cs), loc)
        if d is not None:
            for l, v in reference_rows(s, lee).items():
                want_quantity(ctx, 'reference-table', kind, d, l, v, loc, I)


def upright_points(K, heel, lee):
    """points given on the upright boat, the second half the mirror images of the first"""
    up, cp = [], []
    for k in range(K // 2):
        p = np.array([sc('u%d.x' % k), sc('u%d.y' % k, rng=(-1, 1)), sc('u%d.z' % k, '+', rng=(1.5, 12))] + [None], dtype=object)[:-1]
        up.append(p)
        cp.append(heeled(p, heel, lee))
    for k in range(K // 2):
        cp.append(np.array([cp[k][0], cp[k][1], g_neg(cp[k][2])] + [None], dtype=object)[:-1])
    return up, np.array(cp, dtype=object)


SAVE = 'results.save_utils.save_results_to_file'


from sa.libmodel import extremum


def max_of(xs):
    return extremum('max', list(xs))


def merged(ctx):
    more = [(3, 2, 2, None), (2, 4, 1, ['jib']), (4, 1, 2, None)] if ctx.thorough else []
    for nc, ns, S, names in [(1, 1, 1, None), (1, 1, 1, ['jib']), (1, 2, 2, None), (2, 1, 2, None), (2, 2, 1, None)] + more:
        s = wind_settings()
        heel, lee = sc('heel', rng=(-40, 40)), sc('leeway', rng=(-20, 20))
        K = 2 * nc * ns * S
        up, cp = upright_points(K, heel, lee)
        R = results(ctx, nc, ns, S, names=names, cp=cp)
        I = R.I
        R.vlm.attrs['inlet_conditions'] = I.call(ctx.get(I, 'inlet.inlet_conditions.InletConditions'), [build(ctx, I, s, 'exponential'), sc('rho', '+'), Arr(cp.copy(), 'f')], {})
        loc = ctx.anchorloc(SAVE)
        n0 = len(I.events)
        out = ctx.call(I, SAVE, R.vlm, R.cs, R.res, R.set, strsym('out_dir'), strsym('file_name'))
        inst = '%s%s' % (R.name, ', ' + names[0] if names else '')
        ctx.no_raise('merged-table', inst + ', total', I)
        if not (isinstance(out, tuple) and len(out) == 3):
            ctx.fact('merged-table', inst, None, 'does not return three tables', loc)
            continue
        ev = I.events[n0:]
        d, di, dc = (one_df(ctx, 'merged-table', '%s, table %d' % (inst, i), x, loc) for i, x in enumerate(out))
        if d is None or di is None or dc is None:
            continue
        H, per = K // 2, nc * ns
        cols = {k: v[:H] for k, v in panel_columns(ctx, R, lambda F: meth(ctx, I, R.cs, 'from_xyz_to_centerline_csys', F)).items()}
        cols.update({k: v[:H] for k, v in inlet_columns(cp, 'exponential', s, lee).items()})
        cols['cp_points_upright.z'] = [p[2] for p in up]
        g = []
        for i in range(S):
            zs = [up[k][2] for k in range(i * per, (i + 1) * per)]
            t = R.tacks[i].a[2]
            g += [g_div(g_sub(z, t), g_sub(max_of(zs), t)) for z in zs]
        cols['girths'] = g
        cols['sail_name'] = [n for n in R.sailnames for _ in range(per)]
        for l, v in cols.items():
            want_col(ctx, 'merged-table', inst, d, l, v, loc, I)
        ctx.fact('merged-table', inst + ', aligned', not [e for e in ev if e.kind == 'misaligned'], 'tables with different row labels are joined', loc)
        want_quantity(ctx, 'returned-tables', inst + ', integrals', di, 'F_sails_total_COG.x', gsum(R.F.a[k][0] for k in range(H)), loc, I)
        for l, v in reference_rows(s, lee).items():
            want_quantity(ctx, 'returned-tables', inst + ', wind', dc, l, v, loc, I)
        workbook(ctx, I, inst, ev, (d, di, dc), loc)


def workbook(ctx, I, inst, ev, tables, loc):
    """each sheet is one of the returned tables, whole, with its labels as header"""
    writes = [e for e in ev if e.kind == 'df_write']
    if not writes:
        ctx.fact('workbook', inst, None, 'no table is written through pandas', loc)
        return
    got = {}
    for e in writes:
        sn = e.data['kw'].get('sheet_name', e.data['args'][1] if len(e.data['args']) > 1 else 'Sheet1')
        got.setdefault(sn, []).append(e)
    for sn, t in zip(SHEETS, tables):
        i2 = '%s, sheet %s' % (inst, sn)
        es = got.get(sn, [])
        if len(es) != 1:
            ctx.fact('workbook', i2, False, 'written %d times' % len(es), loc)
            continue
        e = es[0]
        l = I.fmtloc(e.loc)
        ctx.always('workbook', i2 + ', always', e.pc, True, l, 'is only written on some paths')
        kw = e.data['kw']
        snap = e.data['snap']
        ctx.fact('workbook', i2 + ', columns', [c[0] for c in snap] == labels(t) and kw.get('columns') is None, 'columns are %s' % [c[0] for c in snap][:8], l)
        ctx.fact('workbook', i2 + ', header', kw.get('header', True) is True, 'labels are not written', l)
        for a, b in zip(snap, t.data['cols']):
            same_len = len(a[1]) == len(b[1])
            if not same_len:
                ctx.fact('workbook', i2 + ', ' + str(a[0]), False, '%d rows instead of %d' % (len(a[1]), len(b[1])), l)
            else:
                ctx.eq('workbook', i2 + ', ' + str(a[0]), PyList(list(a[1])), np.array(list(b[1]) + [None], dtype=object)[:-1], True, l, I, a[0])
    extra = [s for s in got if s not in SHEETS]
    ctx.fact('workbook', inst + ', sheets', not extra, 'unexpected sheets %s' % extra, loc)


# ---- plots -------------------------------------------------------------------------------------------------------------
def chain(o):
    """(root, attribute names) of an external object"""
    names = []
    while isinstance(o, ExtObj):
        if '@attr' in o.data:
            names.append(o.data['@attr'])
            o = o.data['@of']
        elif '@via' in o.data:
            names.append('()')
            o = o.data['@via']
        else:
            break
    return o, names[::-1]


def callee(e):
    """last name of the called external function"""
    if e.kind == 'ext_call':
        return e.data['name'].split('.')[-1]
    if e.kind == 'extobj_call':
        return e.data['obj'].data.get('@attr')
    return None


def text(v):
    return v if isinstance(v, str) else None


def plots(ctx):
    cases = [(1, 1, 'main'), (1, 2, 'jib'), (2, 1, 'jib_and_main')]
    if ctx.thorough:
        cases += [(2, 2, 'jib_and_main'), (3, 2, 'main')]
    for nc, ns, sails in cases:
        r = run_main(ctx, nc, ns, sails)
        I, K = r.I, r.K
        if len(r.calls) != 1 or r.pc is False:
            ctx.fact('plots', r.name, None, 'no single solution in the run', r.loc)
            continue
        ev = [e for e in r.events if e.kind in ('ext_call', 'extobj_call')]
        section_plots(ctx, r, ev)
        panel_plot(ctx, r, ev)
        pressure_plot(ctx, r, ev)
        winds(ctx, r, ev)
        centres(ctx, r, ev)


def section_plots(ctx, r, ev):
    I = r.I
    m = dict(areas=r.areas, rho=r.b.rho, wind=npa(ctx.attr(I, r.ic, 'V_app_infs')))
    m['wind'] = Arr(m['wind'], 'f')
    names = SAIL_NAMES[r.S == 2 and 'jib_and_main' or ('jib' if r.name.startswith('jib,') else 'main')]
    fig, done = [], set()
    for e in ev:
        n = callee(e)
        if n in ('figure', 'subplots'):
            fig = []
        fig.append((n, e))
        if n != 'savefig':
            continue
        path = e.data['args'][0] if e.data['args'] else e.data['kw'].get('fname')
        tail = path if isinstance(path, str) else str(path.parts[-1]) if isinstance(path, SStr) else ''
        loc = I.fmtloc(e.loc)
        for kind, sym, F in (('cl', 'c_l', r.L), ('cd', 'c_d', r.D)):
            if ('section_' + kind) not in tail:
                continue
            inst = '%s, section_%s' % (r.name, kind)
            done.add(kind)
            xl = [x for x in (text(y.data['args'][0]) for q, y in fig if q in ('xlabel', 'set_xlabel') and y.data['args']) if x]
            other = 'c_d' if sym == 'c_l' else 'c_l'
            ctx.fact('section-plot-axis', inst, bool(xl) and all(sym in x for x in xl) and not any(other in x for x in xl) if xl else None, 'horizontal axis says %s' % xl, loc)
            pts = [y for q, y in fig if q in ('scatter', 'plot')]
            byname = {}
            for y in pts:
                l = y.data['kw'].get('label')
                byname.setdefault(l if isinstance(l, str) else None, []).append(y)
            lname = lambda n: [y for l, ys in byname.items() for y in ys if l is not None and (l == n or l.replace('_sail', '') == n.replace('_sail', ''))]
            ctx.fact('section-plot-sails', inst, len(pts) == len(names) and all(len(lname(n)) == 1 for n in names), 'curves are labelled %s' % sorted(map(str, byname)), loc)
            for s, n in enumerate(names):
                if len(lname(n)) != 1:
                    continue
                y = lname(n)[0]
                if len(y.data['args']) < 2:
                    ctx.fact('section-plot', '%s, %s' % (inst, n), None, 'points not given positionally', loc)
                    continue
                st = strips(s, r.nc, r.ns)
                c = [section(m, F.a, ks) for ks in st]
                a = [gsum(r.areas.a[k] for k in ks) for ks in st]
                mean = g_div(gsum(g_mul(u, v) for u, v in zip(c, a)), gsum(a))
                l2 = I.fmtloc(y.loc)
                arr_ = lambda v: np.array(list(v) + [None], dtype=object)[:-1]
                ctx.eq('section-plot', '%s, %s, coefficient' % (inst, n), y.data['args'][0], arr_(g_div(u, mean) for u in c), True, l2, I, 'horizontal coordinate')
                ctx.eq('section-plot', '%s, %s, height' % (inst, n), y.data['args'][1],
                       arr_(g_div(gsum(r.cp.a[k][2] for k in ks), P(r.nc)) for ks in st), True, l2, I, 'vertical coordinate')
        fig = []
    for kind in ('cl', 'cd'):
        if kind not in done:
            ctx.fact('section-plot', '%s, section_%s saved' % (r.name, kind), False, 'no plot of that name is saved', r.loc)


def panel_plot(ctx, r, ev):
    """every drawn panel is coloured by the quantity the title names"""
    I = r.I
    titles = [text(e.data['args'][0]) for e in ev if callee(e) in ('set_title', 'title') and e.data['args']]
    titles = [t for t in titles if t and 'Panels colored by' in t]
    if len(titles) != 1:
        ctx.fact('panel-plot', r.name, None, 'title not recognised: %s' % titles, r.loc)
        return
    what = titles[0].split('Panels colored by')[1].split('\n')[0]
    want = r.pc_ if 'coefficient of pressure' in what else r.G if 'circulation' in what else r.p if 'pressure' in what else None
    pan = npa(r.calls[0].get('panels'))
    tris = [e for e in ev if e.kind == 'ext_call' and callee(e) == 'Poly3DCollection']
    if want is None or pan is None or not tris:
        ctx.fact('panel-plot', r.name, None, 'panels or title not recognised (%s)' % what, r.loc)
        return
    if len(tris) != r.K:
        ctx.fact('panel-plot', r.name, False, '%d panels drawn instead of %d' % (len(tris), r.K), I.fmtloc(tris[0].loc))
        return
    for k, e in enumerate(tris):
        loc = I.fmtloc(e.loc)
        got = npa(e.data['args'][0]) if e.data['args'] else None
        if got is not None and got.shape == (1, 4, 3):
            ctx.eq('panel-plot', '%s, panel %d' % (r.name, k), Arr(got[0], 'f'), pan[k], True, loc, I, 'drawn corner')
        col_ = [x for x in ev if x.kind == 'extobj_call' and callee(x) in ('set_color', 'set_facecolor') and x.data['obj'].data.get('@of') is e.data['ret']]
        src = [x.data['args'][0] for x in col_ if x.data['args']]
        if len(src) != 1 or not isinstance(src[0], ExtObj) or not src[0].data.get('@args'):
            ctx.fact('panel-colour', '%s, panel %d' % (r.name, k), None, 'colour not recognised', loc)
            continue
        ctx.eq('panel-colour', '%s, panel %d' % (r.name, k), src[0].data['@args'][0], want.a[k], True, loc, I, 'value shown as' + what.rstrip())


def pressure_plot(ctx, r, ev):
    I = r.I
    frames = [e for e in ev if callee(e) == 'GeoDataFrame']
    saves = [e for e in ev if e.kind == 'ext_call' and e.data['name'].endswith('holoviews.save')]
    if len(frames) != 1 or len(saves) != 1:
        ctx.fact('pressure-plot', r.name, None if frames and saves else False, '%d data sets, %d saved plots' % (len(frames), len(saves)), r.loc)
        return
    loc = I.fmtloc(frames[0].loc)
    d = frames[0].data['args'][0] if frames[0].data['args'] else None
    vals = {k: I.getitem(d, k) for k in ('p_coeffs', 'boundary')} if isinstance(d, PyDict) else {}
    ctx.eq('pressure-plot', r.name + ', values', vals.get('p_coeffs', UNSET), r.pc_.a, True, loc, I, 'pressure coefficient')
    b = vals.get('boundary')
    shapes = npa(b.data['@args'][0]) if isinstance(b, ExtObj) and b.data.get('@args') else None
    if shapes is None or shapes.ndim != 3 or shapes.shape[0] != r.K:
        ctx.fact('pressure-plot', r.name + ', outlines', None if shapes is None else False, 'outlines not recognised or %s' % (shapes is not None and shapes.shape,), loc)
        return
    sails = 'jib_and_main' if r.S == 2 else ('jib' if r.name.startswith('jib,') else 'main')
    above, under = [], []
    for kind in KINDS[sails]:
        a = panels_of(flat_grid(spec_sail(r.b, kind, r.ns, 'spline'), r.nc, r.ns), r.nc, r.ns)
        above.append(a)
        under.append(mirrored_panels(a, r.nc, r.ns))
    spec = np.concatenate(above + under)
    for k in range(r.K):
        pts = [(spec[k, c, 0], spec[k, c, 2]) for c in range(4)]
        got = list(shapes[k].ravel())
        alts = []
        for rev in (1, -1):
            for s in range(4):
                q = pts[::rev]
                q = q[s:] + q[:s]
                alts.append([x for p in q + q[:1] for x in p])
        hit = next((a for a in alts if len(a) == len(got) and all(same(x, y) for x, y in zip(a, got))), alts[0])
        ctx.eq('pressure-plot', '%s, outline %d' % (r.name, k), PyList(got), np.array(hit + [None], dtype=object)[:-1], True, loc, I, 'outline')


def arrows(r, ev):
    """(colour, start, vector, alpha, event) of every arrow drawn"""
    out = []
    for e in ev:
        if e.kind == 'ext_call' and e.data['name'].endswith('FancyArrowPatch.__init__') and e.data['args'] and isinstance(e.data['args'][0], Instance):
            o = e.data['args'][0]
            v = r.I.simp(o.attrs.get('_verts3d')) if not isinstance(o.attrs.get('_verts3d'), tuple) else o.attrs['_verts3d']
            if not isinstance(v, tuple) or len(v) != 3:
                continue
            xs = [npa(x) for x in v]
            if any(x is None or x.shape != (2,) for x in xs):
                continue
            out.append((e.data['kw'].get('color'), [x[0] for x in xs], [g_sub(x[1], x[0]) for x in xs], e.data['kw'].get('alpha'), e))
    return out


def winds(ctx, r, ev):
    I = r.I
    ar = arrows(r, ev)
    titles = [t for t in (text(e.data['args'][0]) for e in ev if callee(e) in ('set_title', 'title') and e.data['args']) if t and 'Winds' in t]
    if not ar or len(titles) != 1:
        ctx.fact('wind-arrows', r.name, None, 'arrows or title not recognised', r.loc)
        return
    legend = {}
    for word, v in (('True', 'tws_at_cp'), ('Apparent', 'V_app_infs')):
        i = titles[0].find(word + ' (')
        if i >= 0:
            legend[titles[0][i + len(word) + 2:titles[0].index(')', i)]] = npa(ctx.attr(I, r.ic, v))
    cp = r.cp.a
    # arrows are drawn for one chordwise row of every sail, above and below the water
    first = [h * r.nc * r.ns + j for h in range(2 * r.S) for j in range(r.ns)]
    for colour, w in legend.items():
        mine = [a for a in ar if a[0] == colour]
        ctx.fact('wind-arrows', '%s, %s, count' % (r.name, colour), len(mine) == len(first), '%d %s arrows, expected %d' % (len(mine), colour, len(first)), r.loc)
        if len(mine) != len(first):
            continue
        for k, (c, a, v, al, e) in zip(first, mine):
            loc = I.fmtloc(e.loc)
            ctx.eq('wind-arrows', '%s, %s, panel %d' % (r.name, colour, k), A([v[0], v[1], a[2]]), np.array([w[k][0], w[k][1], cp[k][2]], dtype=object), True, loc, I,
                   'wind components and height of the arrow')


def centres(ctx, r, ev):
    """the force acts at the centre of effort of the sails, the reaction at the centre of lateral resistance"""
    I = r.I
    ar = [a for a in arrows(r, ev) if a[0] == 'black']
    if len(ar) != 2:
        ctx.fact('force-arrows', r.name, None, '%d black arrows' % len(ar), r.loc)
        return
    (_, ce, F, _, e1), (_, clr, Fr, _, e2) = ar
    loc = I.fmtloc(e1.loc)
    h = r.K // 2
    Ft = vadd(*r.F.a[:h])
    ctx.eq('force-arrows', r.name + ', direction', A(cross(F, Ft)), np.array([ZERO] * 3, dtype=object), True, loc, I, 'arrow across the force')
    ctx.always('force-arrows', r.name + ', sense', ge(dot(F, Ft), ZERO), True, loc, 'the arrow points against the force')
    ctx.eq('force-arrows', r.name + ', reaction', A(Fr), vscale(F, P(-1)), True, I.fmtloc(e2.loc), I, 'reaction')
    ctx.eq('force-arrows', r.name + ', resistance', A(clr), heeled(r.b.clr.a, r.b.heel, r.b.lee), True, I.fmtloc(e2.loc), I, 'centre of lateral resistance')
    M = vadd(*[cross(arm3(r.cp.a[k], r.b.ref.a, True), r.F.a[k]) for k in range(h)])
    FF, MF = dot(Ft, Ft), dot(M, Ft)
    ctx.eq('force-arrows', r.name + ', effort', A(vscale(cross(vsub(ce, r.b.ref.a), Ft), FF)), vsub(vscale(M, FF), vscale(Ft, MF)), True, loc, I,
           'moment of the total force at the drawn centre of effort')


def panel_modes(ctx):
    """the drawing shows the quantity its title names in both modes"""
    I = ctx.interp()
    K = 2
    v = OpaqueInst('solution', dict(panels=tensor('P', (K, 4, 3)), gamma_magnitude=tensor('G', (K,)), p_coeffs=tensor('cpc', (K,)), pressure=tensor('p', (K,)),
                                    leading_mid_points=tensor('le', (K, 3)), trailing_mid_points=tensor('te', (K, 3))), ctx.get(I, 'solver.vlm.Vlm'))
    q = 'solver.panels_plotter.display_panels_xyz'
    f = ctx.get(I, q)
    for by, n in (('gamma_magnitude', 'G'), ('p_coeffs', 'cpc'), ('pressure', 'p')):
        n0 = len(I.events)
        ctx.call(I, f, v, by)
        ev = [e for e in I.events[n0:] if e.kind == 'extobj_call' and callee(e) == 'to_rgba']
        got = [e.data['args'][0] for e in ev]
        if len(got) != K:
            ctx.fact('colour-choice', by, None, 'colours not recognised', ctx.anchorloc(q))
            continue
        ctx.eq('colour-choice', by, PyList(got), v.attrs[by].a, True, ctx.anchorloc(q), I, 'value')


STEPS = [panel_table, inlet_table, merged, plots, panel_modes]
