"""P13  Analyses leave their inputs and shared state untouched and are reproducible."""
import re

import sa.kit as kit
from props.cli import *
from props.p08 import meth, build
from props.p12 import model as section_model

TITLE = 'Analyses leave their inputs and shared state untouched and are reproducible'
RULE = ('Effect analysis of every public function and method: whatever it is handed holds the same values when it returns. '
        'Histories: every pipeline and every method is interpreted again after others have run on other inputs in the same process; all results have the same value numbers as in a fresh process. '
        'No clock, random number, environment variable or file is read on the numerical path.')
MIN = 400
# the computation steps: public functions, constructors and methods
STEPS_API = '''
inlet.inlet_conditions.InletConditions.__init__ inlet.inlet_conditions.InletConditions.__iter__ inlet.inlet_conditions.InletConditions.to_df_full
inlet.winds.WindBase.__init__ inlet.winds.WindBase.get_true_wind_speed_at_h inlet.winds.WindBase.to_df_integral inlet.winds.WindBase.length_to_xyz_vector
inlet.winds.WindBase.get_app_alfa_infs_at_h inlet.winds.WindBase.get_app_infs_at_h inlet.winds.FlatWindProfile.__init__
inlet.winds.FlatWindProfile.get_true_wind_speed_at_h inlet.winds.FlatWindProfile.to_df_integral inlet.winds.LogWindProfile.__init__
inlet.winds.LogWindProfile.get_true_wind_speed_at_h inlet.winds.LogWindProfile.to_df_integral inlet.winds.ExpWindProfile.__init__
inlet.winds.ExpWindProfile.get_true_wind_speed_at_h inlet.winds.ExpWindProfile.to_df_integral results.inviscid_flow.InviscidFlowResults.__init__
results.inviscid_flow.InviscidFlowResults.estimate_heeling_moment_from_keel results.inviscid_flow.InviscidFlowResults.__iter__
results.inviscid_flow.InviscidFlowResults.to_df_full results.inviscid_flow.InviscidFlowResults.to_df_integral results.save_utils.save_results_to_file
results.save_utils.save_to_excel rotations.csys_transformations.CSYS_transformations.__init__ rotations.csys_transformations.CSYS_transformations.rotate_point_with_mirror
rotations.csys_transformations.CSYS_transformations.reverse_rotations_with_mirror rotations.csys_transformations.CSYS_transformations.rotate_point_without_mirror
rotations.csys_transformations.CSYS_transformations.from_xyz_to_centerline_csys rotations.csys_transformations.CSYS_transformations.calc_centerline_moments
rotations.csys_transformations.CSYS_transformations.leeway_deg rotations.csys_transformations.CSYS_transformations.heel_deg rotations.geometry_calc.rotation_matrix
rotations.geometry_calc.rotate_points_around_arbitrary_axis rotations.geometry_calc.rotate_points_around_origin_axis solver.additional_functions.normalize
solver.additional_functions.extract_above_water_quantities solver.additional_functions.get_cp_strainght_yacht solver.additional_functions.cp_to_girths
solver.additional_functions.get_cp_z_as_girths_all solver.additional_functions.get_cp_z_as_girths_all_above solver.coefs.calc_velocity_coefs
solver.coefs.get_leading_edge_mid_point solver.coefs.get_trailing_edge_mid_points solver.coefs.calculate_normals_collocations_cps_rings_spans_leading_trailing_mid_points
solver.coefs.calculate_vlm_variables solver.coefs.calculate_RHS solver.coefs.solve_eq solver.coefs.get_vlm_CL_CD_free_wing solver.coefs.get_vlm_Cxyz
solver.coefs.get_CL_CD_free_wing solver.coefs.get_C solver.coefs.get_data_for_coeff_plot solver.forces.calc_moment_arm_in_shifted_csys solver.forces.calc_moments
solver.forces.determine_vector_from_its_dot_and_cross_product solver.forces.calc_force_wrapper solver.forces.calc_pressure solver.forces.is_no_flux_BC_satisfied
solver.forces.calc_pressure_coeff solver.interpolator.Interpolator.__init__ solver.interpolator.Interpolator.interpolate_girths
solver.interpolator.Interpolator.interpolate_and_mirror_girths solver.interpolator.Interpolator.interpolate_data_for_sections solver.mesher.discrete_segment
solver.mesher.make_point_mesh solver.mesher.make_airfoil_mesh solver.panels.make_panels_from_mesh_spanwise solver.panels.make_panels_from_le_te_points
solver.panels.get_panels_area solver.panels_plotter.display_panels_xyz solver.panels_plotter.display_panels_or_rings solver.panels_plotter.display_hull
solver.panels_plotter.display_winds solver.panels_plotter.display_CE_CLR solver.panels_plotter.display_panels_xyz_and_winds solver.panels_plotter.plot_cp
solver.panels_plotter.plot_section_coeff solver.velocity.is_in_vortex_core solver.velocity.vortex_line solver.velocity.vortex_infinite_line
solver.velocity.vortex_horseshoe solver.velocity.vortex_horseshoe_v2 solver.velocity.vortex_ring solver.velocity.calc_induced_velocity solver.velocity.calculate_app_fs
solver.vlm.Vlm.__post_init__ yacht_geometry.hull_geometry.HullGeometry.__init__ yacht_geometry.sail_factory.SailFactory.__init__
yacht_geometry.sail_factory.SailFactory.make_main_sail yacht_geometry.sail_factory.SailFactory.make_jib yacht_geometry.sail_geometry.BaseGeometry.panels
yacht_geometry.sail_geometry.SailGeometry.__init__ yacht_geometry.sail_geometry.SailGeometry.rotate_points_around_le yacht_geometry.sail_geometry.SailGeometry.n_chordwise
yacht_geometry.sail_geometry.SailGeometry.n_spanwise yacht_geometry.sail_geometry.SailGeometry.panels yacht_geometry.sail_geometry.SailGeometry.panels_above
yacht_geometry.sail_geometry.SailGeometry.panels_under yacht_geometry.sail_geometry.SailGeometry.trailing_edge_info
yacht_geometry.sail_geometry.SailGeometry.leading_edge_info yacht_geometry.sail_geometry.SailSet.__init__ yacht_geometry.sail_geometry.SailSet.panels
yacht_geometry.sail_geometry.SailSet.trailing_edge_info yacht_geometry.sail_geometry.SailSet.leading_edge_info thin_airfoil.vlm_airfoil.VlmAirfoil.__init__
thin_airfoil.vlm_airfoil.VlmAirfoil.xc thin_airfoil.vlm_airfoil.VlmAirfoil.yc thin_airfoil.vlm_airfoil.VlmAirfoil.yt thin_airfoil.vlm_airfoil.VlmAirfoil.yu
thin_airfoil.vlm_airfoil.VlmAirfoil.yl thin_airfoil.vlm_airfoil.VlmAirfoil.xu thin_airfoil.vlm_airfoil.VlmAirfoil.xl thin_airfoil.vlm_airfoil.VlmAirfoil.plot
runner.aircraft.Aircraft.__init__ runner.aircraft.Aircraft.get_info runner.aircraft.Aircraft.Cxyz runner.aircraft.Aircraft.CL_theoretical
runner.aircraft.Aircraft.CD_theoretical runner.aircraft.Aircraft.AR runner.aircraft.Aircraft.CL runner.aircraft.Aircraft.CD runner.aircraft.Aircraft.Cp
runner.aircraft.Aircraft.force runner.aircraft.Aircraft.pressure runner.container.MainSail.__post_init__ runner.container.JibSail.__post_init__
runner.sail.check_list_for_none runner.sail.check_input_arr_shapes runner.sail.Wind.__post_init__ runner.sail.Wind.profile runner.sail.Sail.__post_init__
runner.sail.Sail.sail_set
'''.split()


# ---------------------------------------------------------------------------------------------------- results as flat lists
def flat(v, name='', out=None, depth=0):
    out = [] if out is None else out
    if depth > 5:
        return out
    if isinstance(v, Arr):
        for i in np.ndindex(*v.a.shape):
            out.append((name + str(list(i)), v.a[i]))
    elif isinstance(v, (PyList, tuple, list)):
        it = v if isinstance(v, (tuple, list)) else (v.v if isinstance(v.v, tuple) else None)
        if it is None:
            out.append((name, Opaque('list of unknown length')))
        else:
            for i, x in enumerate(it):
                flat(x, '%s[%d]' % (name, i), out, depth + 1)
    elif isinstance(v, PyDict):
        for k, x in v.d.items():
            flat(x, '%s[%r]' % (name, k), out, depth + 1)
    elif isinstance(v, ExtObj) and v.kind == 'df':
        for l, xs in v.data['cols']:
            flat(list(xs), '%s.%s' % (name, l), out, depth + 1)
    elif isinstance(v, (Instance, OpaqueInst)):
        for n, x in v.attrs.items():
            flat(x, name + '.' + n, out, depth + 1)
    elif isinstance(v, DD) and has_obj(v):
        for i, (c, l) in enumerate(cases(v)):
            flat(l, '%s{%d}' % (name, i), out, depth + 1)
    elif isinstance(v, (ExtObj, FuncVal, ClassVal, Bound, Prop)):
        pass
    else:
        out.append((name, v))
    return out


class Flat(list):
    pass


def flat_copy(v):
    return Flat(flat(v))


def compare_flat(ctx, rule, inst, g, w, loc):
    return compare(ctx, rule, inst, Flat(g), Flat(w), loc)


def compare(ctx, rule, inst, got, want, loc):
    """identical results, element by element; one obligation per result"""
    g, w = (x if isinstance(x, Flat) else flat(x) for x in (got, want))
    if [n for n, _ in g] != [n for n, _ in w]:
        d = [(a, b) for (a, _), (b, _) in zip(g, w) if a != b][:1] or [len(g), len(w)]
        return ctx.fact(rule, inst, False, 'the result has another structure the second time: %s' % (d,), loc)
    if not g or any(x is UNSET for _, x in w):
        return ctx.fact(rule, inst, None, 'no result', loc)
    a = np.array([x for _, x in g] + [None], dtype=object)[:-1]
    b = np.array([x for _, x in w] + [None], dtype=object)[:-1]
    bad = [i for i in range(len(a)) if not Interp.same_value(a[i], b[i])]
    if not bad:
        return ctx.fact(rule, inst, True, '%d values' % len(g), loc)
    unk = [i for i in bad if isinstance(a[i], Opaque) or isinstance(b[i], Opaque)]
    if len(unk) == len(bad):
        return ctx.fact(rule, inst, None, 'not known: %s %s' % (g[bad[0]][0], a[bad[0]] if isinstance(a[bad[0]], Opaque) else b[bad[0]]), loc)
    for i in bad:
        if i in unk:
            continue
        r = ctx.eq(rule, inst, a[i], b[i], True, loc, None, g[i][0])
        if r != 'proved':
            return r


class other_inputs:
    """every symbol made inside (whose name is selected) is another one"""
    def __init__(self, tag, which=None):
        self.tag = tag
        self.which = which
        self.names = set()

    def __enter__(self):
        self.old = kit.sc
        tag = self.tag
        old = self.old

        def sc2(name, *a, **k):
            self.names.add(name)
            w = True if self.which is None else self.which(name)
            return old(w if isinstance(w, str) else tag + name if w else name, *a, **k)
        self.mods = [(m, n) for m in list(sys.modules.values()) if getattr(m, '__name__', '').startswith(('props.', 'sa.kit')) for n in ('sc',) if getattr(m, n, None) is old]
        for m, n in self.mods:
            setattr(m, n, sc2)

        return self

    def __exit__(self, *a):
        for m, n in self.mods:
            setattr(m, n, self.old)


class same_process:
    """everything interpreted inside shares one interpreter: module state, class attributes and default arguments persist"""
    def __init__(self, ctx, I):
        self.ctx, self.I = ctx, I

    def __enter__(self):
        def interp(cuts=None):
            self.I.cuts.clear()
            self.I.cuts.update(cuts or {})
            return self.I
        self.ctx.interp = interp

    def __exit__(self, *a):
        del self.ctx.interp


# ---------------------------------------------------------------------------------------------------- pipelines
def p_sails(sails, method, nc, ns):
    def f(ctx):
        I = ctx.interp(dict(CUTS_GEOM))
        c = containers(ctx, I, full_boat(), nc, ns, sails, method)
        st, _ = build_set(ctx, I, c)
        return [I.getattr_(st, n) for n in ('panels', 'trailing_edge_info', 'leading_edge_info', 'zero_mesh')]
    f.label = 'sail set %s, %s, %dx%d' % (sails, method, nc, ns)
    f.anchor = 'runner.sail.Sail'
    return f


def p_solution(nc, ns, S, wind, cuts=None):
    def f(ctx):
        m = make_vlm(ctx, nc, ns, S, cuts=cuts, wind=wind)
        return [at(ctx, m, n) for n in ('areas', 'normals', 'ctr_p', 'cp', 'rings', 'span_vectors', 'gamma_magnitude', 'force', 'lift', 'drag',
                                        'V_induced_at_cp', 'V_app_fs_at_cp', 'pressure', 'p_coeffs')]
    f.label = 'solution %dx%d, %d sails, %s' % (nc, ns, S, wind)
    f.anchor = 'solver.vlm.Vlm'
    return f


def p_tables(nc, ns, S):
    def f(ctx):
        R = results(ctx, nc, ns, S)
        I = R.I
        meth(ctx, I, R.res, 'estimate_heeling_moment_from_keel', vec('clr'))
        return [meth(ctx, I, R.res, n) for n in ('to_df_full', 'to_df_integral')]
    f.label = 'tables %dx%d, %d sails' % (nc, ns, S)
    f.anchor = 'results.inviscid_flow.InviscidFlowResults'
    return f


def p_wing(nc, ns):
    def f(ctx):
        I = ctx.interp(dict(CUTS_VORTEX, **CUTS_LET))
        w = ctx.call(I, 'runner.aircraft.Aircraft', sc('chord', '+'), sc('halfspan', '+', rng=(2, 6)), sc('AoA', rng=(1, 12)), ns, nc, vec('V'), rho=sc('rho', '+'))
        return [I.getattr_(w, n) for n in ('CL', 'CD', 'Cxyz', 'AR', 'force', 'pressure', 'CL_theoretical')]
    f.label = 'wing %dx%d' % (nc, ns)
    f.anchor = 'runner.aircraft.Aircraft'
    return f


def p_winds(kind):
    def f(ctx):
        I = ctx.interp()
        s = wind_settings()
        w = build(ctx, I, s, kind)
        h = sc('h', '+', rng=(1, 20))
        tw = meth(ctx, I, w, 'get_true_wind_speed_at_h', h)
        ic = ctx.call(I, 'inlet.inlet_conditions.InletConditions', w, sc('rho', '+'), tensor('cp', (4, 3), '+', rng=(1, 20)))
        return [tw, ctx.attr(I, ic, 'V_app_infs'), meth(ctx, I, ic, 'to_df_full', frame(ctx, I)[0])]
    f.label = 'wind ' + kind
    f.anchor = 'inlet.winds.WindBase'
    return f


def p_sections(nc, ns, S):
    def f(ctx):
        K = 2 * nc * ns * S
        I = ctx.interp()
        m = section_model(K)
        ic = OpaqueInst('inlet conditions', dict(V_app_infs=m['wind'], cp_points=m['cp'], rho=m['rho']), None)
        o = OpaqueInst('solution', dict(panels=m['panels'], areas=m['areas'], lift=m['lift'], drag=m['drag'], force=m['force'], cp=m['cp'],
                                        inlet_conditions=ic, n_spanwise=ns, n_chordwise=nc, rho=m['rho']), ctx.get(I, 'solver.vlm.Vlm'))
        return ctx.call(I, 'solver.coefs.get_data_for_coeff_plot', o, OpaqueInst('solver', dict(n_spanwise=ns, n_chordwise=nc), None))
    f.label = 'section curves %dx%d, %d sails' % (nc, ns, S)
    f.anchor = 'solver.coefs.get_data_for_coeff_plot'
    return f


def p_workbook(nc, ns, S):
    def f(ctx):
        s = wind_settings()
        R = results(ctx, nc, ns, S)
        I = R.I
        R.vlm.attrs['inlet_conditions'] = I.call(ctx.get(I, 'inlet.inlet_conditions.InletConditions'), [build(ctx, I, s, 'exponential'), sc('rho', '+'), Arr(R.cp.a.copy(), 'f')], {})
        return ctx.call(I, 'results.save_utils.save_results_to_file', R.vlm, R.cs, R.res, R.set, strsym('out_dir'), strsym('file_name'))
    f.label = 'workbook %dx%d, %d sails' % (nc, ns, S)
    f.anchor = 'results.save_utils.save_results_to_file'
    return f


def p_fn(q, make, cuts=None):
    def f(ctx):
        I = ctx.interp(cuts)
        return ctx.call(I, q, *make(I))
    f.label = q.split('.')[-1]
    f.anchor = q
    return f


def functions():
    V3 = lambda *ns: (lambda I: [vec(n) for n in ns])
    out = [p_fn('solver.velocity.vortex_line', lambda I: [vec('p'), vec('A'), vec('B'), sc('g')]),
           p_fn('solver.velocity.vortex_infinite_line', lambda I: [vec('p'), vec('A'), vec('d'), sc('g')]),
           p_fn('solver.velocity.vortex_horseshoe', lambda I: [vec('p'), vec('B'), vec('C'), vec('V'), sc('g')], CUTS_VORTEX_LEGS),
           p_fn('solver.velocity.vortex_horseshoe_v2', lambda I: [vec(n) for n in ('p', 'A', 'B', 'C', 'D', 'V')] + [sc('g')], CUTS_VORTEX_LEGS),
           p_fn('solver.velocity.vortex_ring', lambda I: [vec(n) for n in ('p', 'A', 'B', 'C', 'D')] + [sc('g')], CUTS_VORTEX_LEGS),
           p_fn('solver.velocity.calc_induced_velocity', lambda I: [tensor('c', (3, 3, 3)), tensor('G', (3,))]),
           p_fn('solver.velocity.calculate_app_fs', lambda I: [tensor('V', (3, 3)), tensor('c', (3, 3, 3)), tensor('G', (3,))]),
           p_fn('solver.coefs.calculate_RHS', lambda I: [tensor('V', (3, 3)), tensor('n', (3, 3))]),
           p_fn('solver.coefs.solve_eq', lambda I: [tensor('M', (3, 3)), tensor('r', (3,))], CUTS_LET),
           p_fn('solver.coefs.get_vlm_CL_CD_free_wing', lambda I: [tensor('F', (3, 3)), vec('V'), sc('rho', '+'), sc('S', '+')]),
           p_fn('solver.coefs.get_vlm_Cxyz', lambda I: [tensor('F', (3, 3)), vec('V'), sc('rho', '+'), sc('S', '+')]),
           p_fn('solver.coefs.get_CL_CD_free_wing', lambda I: [sc('AR', '+'), sc('AoA')]),
           p_fn('solver.coefs.get_leading_edge_mid_point', V3('p2', 'p3')), p_fn('solver.coefs.get_trailing_edge_mid_points', V3('p1', 'p4')),
           p_fn('solver.forces.calc_moment_arm_in_shifted_csys', lambda I: [tensor('cp', (4, 3), signs={2: '+'}), vec('ref')]),
           p_fn('solver.forces.calc_moments', lambda I: [tensor('cp', (4, 3)), tensor('F', (4, 3))]),
           p_fn('solver.forces.determine_vector_from_its_dot_and_cross_product', lambda I: [vec('F'), sc('d'), vec('c')]),
           p_fn('solver.forces.calc_pressure', lambda I: [tensor('F', (3, 3)), tensor('n', (3, 3)), tensor('A', (3,), '+')]),
           p_fn('solver.forces.calc_pressure_coeff', lambda I: [tensor('p', (3,)), sc('rho', '+'), tensor('V', (3, 3))]),
           p_fn('solver.panels.get_panels_area', lambda I: [tensor('P', (2, 4, 3))]),
           p_fn('solver.panels.make_panels_from_mesh_spanwise', lambda I: [tensor('m', (3, 3, 3))]),
           p_fn('solver.panels.make_panels_from_le_te_points', lambda I: [I.mklist([vec(n) for n in ('le1', 'te1', 'le2', 'te2')]), I.mklist([2, 2])]),
           p_fn('solver.mesher.discrete_segment', lambda I: [vec('p1'), vec('p2'), 3]),
           p_fn('solver.mesher.make_point_mesh', lambda I: [tensor('s1', (3, 3)), tensor('s2', (3, 3)), 2]),
           p_fn('rotations.geometry_calc.rotation_matrix', lambda I: [vec('axis'), sc('th')]),
           p_fn('rotations.geometry_calc.rotate_points_around_arbitrary_axis', lambda I: [tensor('ps', (2, 3)), vec('p1'), vec('p2'), sc('th')]),
           p_fn('rotations.geometry_calc.rotate_points_around_origin_axis', lambda I: [tensor('ps', (2, 3)), vec('axis'), sc('th')]),
           p_fn('solver.additional_functions.normalize', lambda I: [tensor('x', (3,))]),
           p_fn('solver.additional_functions.extract_above_water_quantities', lambda I: [tensor('q', (4, 3))]),
           p_fn('solver.additional_functions.cp_to_girths', lambda I: [tensor('cp', (3, 3), '+'), vec('tack')])]
    return out


# the straight legs, so that the compound elements stay small
CUTS_VORTEX_LEGS = CUTS_VORTEX


def p_run(sails, prof):
    def f(ctx):
        r = run_main(ctx, 1, 2, sails, prof, 'linear')
        out = [e.data['snap'] for e in r.events if e.kind == 'df_write' and 'snap' in e.data]
        r.I.events.clear()
        return [[list(x) for _, x in t] for t in out[-3:]] + [list(c.values()) for c in r.calls]
    f.label = 'run %s, %s wind' % (sails, prof)
    f.anchor = 'runner.cli.main'
    return f


def pipelines(ctx):
    ps = [p_sails('jib_and_main', 'linear', 2, 2), p_sails('main', 'spline', 1, 2), p_solution(1, 1, 1, 'ExpWindProfile'), p_solution(2, 2, 2, 'LogWindProfile'),
          p_solution(1, 2, 1, 'FlatWindProfile'), p_tables(2, 1, 2), p_tables(1, 1, 1), p_wing(2, 2), p_sections(2, 2, 2), p_workbook(1, 1, 2), p_winds('exponential'), p_winds('logarithmic'), p_winds('flat')]
    if ctx.thorough:
        ps += [p_sails('jib', 'spline', 3, 2), p_solution(3, 2, 2, 'ExpWindProfile'), p_solution(2, 1, 1, 'FlatWindProfile'), p_tables(2, 3, 2), p_wing(1, 1), p_wing(3, 2)]
    return ps + functions() + objects()


def objects():
    return [p_object(n, m) for n, m in OBJECTS if n not in ('SailSet', 'Sail', 'Aircraft')]


def loc_of(ctx, f):
    if isinstance(f.anchor, str):
        return ctx.anchorloc(f.anchor)
    return '%s:%d' % (os.path.relpath(f.anchor.module.path, ctx.repo), f.anchor.node.lineno)


def histories(ctx):
    """A in a fresh process; all of B, then all of A, then A again in reverse order in another process"""
    ps = pipelines(ctx)
    fresh = {p.label: p(ctx) for p in ps}
    I = Interp(ctx.repo)
    ctx.interps.append(I)
    with same_process(ctx, I):
        with other_inputs("B'"):
            for p in ps:
                p(ctx)
        for rule, order in (('after-other-inputs', ps), ('repeated', ps[::-1])):
            for p in order:
                compare(ctx, rule, p.label, p(ctx), fresh[p.label], loc_of(ctx, p))


def group(name):
    m = re.match(r'[A-Za-z_]+(\.[A-Za-z_]{3,})?', name)
    return m.group(0) if m else name


def index_of(name):
    m = re.match(r'(.*)\[([0-9,]+)\]$', name)
    return (m.group(1), tuple(int(i) for i in m.group(2).split(','))) if m else (name, None)


def selections(names):
    """which inputs the earlier run had different: one group of them; all but the first or last entry of each array; the interior of each array;
    or the same entries in another order (keys made of a length, the ends, a sum or an extreme value are the same then)"""
    out = [('other ' + g, lambda n, g=g: group(n) == g) for g in sorted({group(n) for n in names})]
    size = {}
    for n in names:
        b, i = index_of(n)
        if i is not None:
            size[b] = tuple(map(max, size.get(b, i), i))
    if not size:
        return out
    ix = lambda n: (size.get(index_of(n)[0]), index_of(n)[1])

    def but_first(n):
        return any(c in '123456789' for c in n)

    def but_last(n):
        m, i = ix(n)
        return i is not None and i != m

    def interior(n):
        m, i = ix(n)
        return i is not None and any(0 < a < b for a, b in zip(i, m))

    def turned(n):
        b, i = index_of(n)
        m = size.get(b)
        if i is None or not m or m[0] < 1:
            return False
        return '%s[%s]' % (b, ','.join(map(str, ((i[0] + 1) % (m[0] + 1),) + i[1:])))

    def turned_inside(n):
        b, i = index_of(n)
        m = size.get(b)
        if i is None or not m or m[0] < 3 or i[0] in (0, m[0]):
            return False
        return '%s[%s]' % (b, ','.join(map(str, (i[0] % (m[0] - 1) + 1,) + i[1:])))
    out.append(('all entries but the first', but_first))
    out.append(('all entries but the last', but_last))
    if any(interior(n) for n in names):
        out.append(('other interior entries', interior))
    if any(turned(n) for n in names):
        out.append(('entries in another order', turned))
    if any(turned_inside(n) for n in names):
        out.append(('interior entries in another order', turned_inside))
    return out


def p_object(name, make):
    def f(ctx):
        I = ctx.interp()
        o, calls = make(ctx, I)
        f.anchor = o.cls
        return [do(ctx, I, o, c) for c in calls]
    f.label = 'methods of ' + name
    f.anchor = None
    return f


def partial(ctx):
    """the earlier run differs in one input only (a result kept under an incomplete key would be taken for this one)"""
    ps = [p_sails('jib_and_main', 'linear', 1, 1), p_solution(1, 1, 1, 'ExpWindProfile'), p_solution(1, 2, 1, 'LogWindProfile'), p_tables(1, 1, 1), p_wing(1, 1), p_sections(1, 2, 1),
          p_workbook(1, 1, 1), p_winds('exponential'), p_winds('logarithmic')] + functions() + objects()
    for p in ps:
        with other_inputs('', lambda n: False) as o:
            fresh = p(ctx)
        for what, f in selections(o.names):
            I = Interp(ctx.repo)
            ctx.interps.append(I)
            with same_process(ctx, I):
                with other_inputs("B'", f):
                    p(ctx)
                compare(ctx, 'after-similar-inputs', '%s, %s' % (p.label, what), p(ctx), fresh, loc_of(ctx, p))


def runs(ctx):
    fresh = {}
    ps = [p_run('jib_and_main', 'exponential'), p_run('main', 'flat')]
    for p in ps:
        fresh[p.label] = p(ctx)
    I = Interp(ctx.repo)
    ctx.interps.append(I)
    with same_process(ctx, I):
        with other_inputs("B'"):
            for p in ps:
                p(ctx)
        for p in ps:
            compare(ctx, 'after-other-inputs', p.label, p(ctx), fresh[p.label], loc_of(ctx, p))


# ---------------------------------------------------------------------------------------------------- methods of one object in any order
def cs_calls(ctx, I):
    cs, heel, lee, ref = frame(ctx, I)
    above = lambda n: np.array([sc(n + '.x'), sc(n + '.y', rng=(-1, 1)), sc(n + '.z', '+', rng=(3, 12))] + [None], dtype=object)[:-1]
    pt = lambda n: Arr(above(n), 'f')
    return cs, [('rotate_point_with_mirror', lambda: [pt('p')]), ('rotate_point_with_mirror', lambda: [pt('q')]), ('reverse_rotations_with_mirror', lambda: [pt('p')]),
                ('rotate_point_without_mirror', lambda: [vec('k')]), ('from_xyz_to_centerline_csys', lambda: [tensor('F', (2, 3))]),
                ('from_xyz_to_centerline_csys', lambda: [tensor('M', (3, 3))]), ('calc_centerline_moments', lambda: [vec('m')])]


def interpolator_calls(method):
    def f(ctx, I):
        o = ctx.call(I, 'solver.interpolator.Interpolator', method)
        g1, g2 = arr([0, Q(1, 3), Q(1, 2), Q(3, 4), 1]), arr([0, Q(1, 4), Q(1, 2), Q(2, 3), 1])
        return o, [('interpolate_girths', lambda: [g1, tensor('y', (5,)), 3]), ('interpolate_girths', lambda: [g1, tensor('u', (5,)), 3]),
                   ('interpolate_girths', lambda: [g2, tensor('y', (5,)), 3]), ('interpolate_girths', lambda: [g1, tensor('y', (5,)), 4]),
                   ('interpolate_and_mirror_girths', lambda: [g1, tensor('y', (5,)), 3])]
    return f


def wind_calls(kind):
    def f(ctx, I):
        w = build(ctx, I, wind_settings(), kind)
        h = lambda n: (lambda: [sc(n, '+', rng=(1, 20))])
        return w, [('get_true_wind_speed_at_h', h('h0')), ('get_true_wind_speed_at_h', h('h1'))]
    return f


def factory_calls(ctx, I):
    I.cuts.update(CUTS_GEOM)
    cs = frame(ctx, I)[0]
    o = ctx.call(I, 'yacht_geometry.sail_factory.SailFactory', csys_transformations=cs, n_spanwise=2, n_chordwise=1, rake_deg=sc('rake', rng=(84, 115)), sheer_above_waterline=sc('sheer', '+', rng=(1, 2)))
    t = lambda p: dict(sail_twist_deg=tensor(p + '.tw', (3,), rng=(0, 20)), LLT_twist='real_twist', interpolated_camber=tensor(p + '.m', (3,), rng=(0.01, 0.1)),
                       interpolated_distance_from_luff=tensor(p + '.p', (3,), rng=(0.2, 0.8)))
    main = lambda p: (lambda: [dict(main_sail_luff=sc(p + 'luff', '+'), boom_above_sheer=sc(p + 'boom', '+'), main_sail_chords=tensor(p + 'c', (3,), rng=(1, 3)), **t(p + 'm'))])
    jib = lambda p: (lambda: [dict(jib_luff=sc(p + 'jluff', '+'), foretriangle_base=sc(p + 'J', '+', rng=(2, 5)), foretriangle_height=sc(p + 'I', '+', rng=(8, 12)),
                                   jib_chords=tensor(p + 'jc', (3,), rng=(1, 3)), mast_LOA=sc(p + 'mast', '+', rng=(0.05, 0.4)), **t(p + 'j'))])
    return o, [('make_main_sail', main('')), ('make_jib', jib('')), ('make_main_sail', main('2')), ('make_jib', jib('2'))]


def inlet_calls(ctx, I):
    w = build(ctx, I, wind_settings(), 'exponential')
    o = ctx.call(I, 'inlet.inlet_conditions.InletConditions', w, sc('rho', '+'), tensor('cp', (4, 3), '+', rng=(1, 20)))
    cs = frame(ctx, I)[0]
    return o, [('to_df_full', lambda: [cs]), ('@V_app_infs', None), ('@tws_at_cp', None)]


def props_of(q, make, names, cuts=None):
    def f(ctx, I):
        I.cuts.update(cuts or {})
        return make(ctx, I), [('@' + n, None) for n in names]
    f.q = q
    return f


def airfoil_(ctx, I):
    return ctx.call(I, AIRFOIL, sc('m', rng=(0.01, 0.2)), sc('pos', rng=(0.2, 0.8)), sc('t', rng=(0.05, 0.2)), 4)


def sail_set_(ctx, I):
    st, _ = build_set(ctx, I, containers(ctx, I, full_boat(), 2, 1, 'jib_and_main', 'linear'))
    return st


def sail_(ctx, I):
    c = containers(ctx, I, full_boat(), 2, 1, 'jib_and_main', 'linear')
    return ctx.call(I, 'runner.sail.Sail', c.solver, c.rig, c.main, c.jib, c.cs)


def wing_(ctx, I):
    return ctx.call(I, 'runner.aircraft.Aircraft', sc('chord', '+'), sc('halfspan', '+', rng=(2, 6)), sc('AoA', rng=(1, 12)), 2, 1, vec('V'), rho=sc('rho', '+'))


OBJECTS = [('CSYS_transformations', cs_calls), ('Interpolator linear', interpolator_calls('linear')), ('Interpolator spline', interpolator_calls('spline')),
           ('exponential wind', wind_calls('exponential')), ('logarithmic wind', wind_calls('logarithmic')), ('flat wind', wind_calls('flat')),
           ('SailFactory', factory_calls), ('InletConditions', inlet_calls),
           ('VlmAirfoil', props_of(AIRFOIL, airfoil_, ['xc', 'yc', 'yt', 'yu', 'yl', 'xu', 'xl'])),
           ('SailSet', props_of('', sail_set_, ['panels', 'trailing_edge_info', 'leading_edge_info', 'zero_mesh'], CUTS_GEOM)),
           ('Sail', props_of('', sail_, ['sail_set'], CUTS_GEOM)),
           ('Aircraft', props_of('', wing_, ['CL', 'CD', 'Cxyz', 'AR', 'CL_theoretical', 'CD_theoretical', 'force', 'pressure'], dict(CUTS_VORTEX, **CUTS_LET)))]


def do(ctx, I, o, c):
    n, mk = c
    if n.startswith('@'):
        I.pc = True
        I.raises[:] = [[]]
        return I.getattr_(o, n[1:])
    a = mk()
    I.pc = True
    f = ctx.attr(I, o, n)
    if f is UNSET:
        return UNSET
    if len(a) == 1 and isinstance(a[0], dict):
        return ctx.call(I, f, **a[0])
    return ctx.call(I, f, *a)


def methods(ctx):
    """every method of one object gives the same result whatever was called on the object before"""
    for name, make in OBJECTS:
        def fresh_object():
            I = ctx.interp()
            o, calls = make(ctx, I)
            return I, o, calls
        I, o, calls = fresh_object()
        loc = '%s:%d' % (os.path.relpath(o.cls.module.path, ctx.repo), o.cls.node.lineno) if isinstance(o, Instance) else name
        want = []
        for i in range(len(calls)):
            I1, o1, c1 = fresh_object()
            v = do(ctx, I1, o1, c1[i])
            want.append(None if v is UNSET else flat_copy(v))
        n = len(calls)
        order = list(range(n)) + list(range(n - 1, -1, -1)) + list(range(n))
        seen = {}
        for i in order:
            v = do(ctx, I, o, calls[i])
            k = seen[i] = seen.get(i, 0) + 1
            inst = '%s.%s (%d), call %d' % (name, calls[i][0].lstrip('@'), i, k)
            if want[i] is None:
                if v is not UNSET:
                    ctx.fact('any-order', inst, None, 'only available after other calls', loc)
                continue
            compare_flat(ctx, 'any-order', inst, flat_copy(v), want[i], loc)


def keel_twice(ctx):
    """the keel reaction is set, not accumulated; tables may be asked for in any order and as often as wanted"""
    for nc, ns, S in ((1, 1, 1), (2, 1, 2)):
        def start():
            R = results(ctx, nc, ns, S)
            return R
        R = start()
        meth(ctx, R.I, R.res, 'estimate_heeling_moment_from_keel', vec('clr'))
        want = flat(meth(ctx, R.I, R.res, 'to_df_integral'))
        full = flat(meth(ctx, R.I, R.res, 'to_df_full'))
        R = start()
        meth(ctx, R.I, R.res, 'estimate_heeling_moment_from_keel', vec('other'))
        for k in range(3):
            meth(ctx, R.I, R.res, 'estimate_heeling_moment_from_keel', vec('clr'))
            compare_flat(ctx, 'any-order', 'panel table %s, %d' % (R.name, k), flat(meth(ctx, R.I, R.res, 'to_df_full')), full, R.loc)
            compare_flat(ctx, 'any-order', 'totals %s, keel given %d times' % (R.name, k + 2), flat(meth(ctx, R.I, R.res, 'to_df_integral')), want, R.loc)
            compare_flat(ctx, 'any-order', 'totals %s, asked again %d' % (R.name, k), flat(meth(ctx, R.I, R.res, 'to_df_integral')), want, R.loc)


# ---------------------------------------------------------------------------------------------------- fresh defaults
def defaults(ctx):
    """two objects created with defaults share no array, list or dictionary, nor one with the module"""
    I = ctx.interp()
    for q in ('runner.container.MainSail', 'runner.container.JibSail', 'runner.container.Csys', 'runner.container.Keel', 'runner.container.Rig', 'runner.container.Conditions',
              'runner.container.Solver', 'runner.container.Output'):
        a, b = ctx.call(I, q), ctx.call(I, q)
        loc = ctx.anchorloc(q)
        la, lb = {}, {}
        I.reach(a, q.split('.')[-1], la)
        I.reach(b, q.split('.')[-1], lb)
        shared = [la[k][0] for k in la if k in lb]
        module = [la[k][0] for k in la if k in I.owned and I.owned[k] == 'module state']
        ctx.fact('fresh-defaults', q, not shared and not module, 'shared between instances: %s' % (shared or module), loc)
    # positive example: the rule sees a shared array when there is one
    x = tensor('x', (3,))
    la, lb = {}, {}
    for l in (la, lb):
        I.reach(Arr(x.a[1:], 'f'), 'view', l)
    ctx.fact('selftest', 'a view of the same array is recognised', bool(set(la) & set(lb)), '', 'props/p13.py')


SELFTEST = '''
import numpy as np
_cache = {}
def scale(a, b):
    a *= 2
    return a + b
def view(a, n):
    v = a[1:].reshape(-1)
    v[0] = n
    return v
def keyed(a):
    k = len(a)
    if k not in _cache:
        _cache[k] = a.sum()
    return _cache[k]
def acc(x, seen=[]):
    seen.append(x)
    return sum(seen)
def clean(a, b):
    c = a.copy()
    c += b
    a2 = np.asarray(a)
    a2 = a2 * 1.0
    a2[0] = 3
    return c
'''


def selftest(ctx):
    """the machinery reports what it is meant to report (positive examples) and nothing on a clean function"""
    import tempfile
    d = tempfile.mkdtemp(prefix='p13')
    try:
        os.makedirs(os.path.join(d, PKG))
        for f in ('__init__.py', 'ex.py'):
            open(os.path.join(d, PKG, f), 'w').write(SELFTEST if f == 'ex.py' else '')
        I = Interp(d)
        I.steps = {PKG + '.ex.' + n for n in ('scale', 'view', 'keyed', 'acc', 'clean')}
        f = lambda n: I.get(PKG + '.ex.' + n)

        def call(n, *a):
            I.pc = True
            I.raises[:] = [[]]
            del I.events[:]
            r = I.run(f(n), *a)
            return r, [e.data['label'] for e in I.events if e.kind == 'mutate_arg']
        ctx.fact('selftest', 'in-place arithmetic', call('scale', tensor('a', (3,)), tensor('b', (3,)))[1] == ['a'], '', 'props/p13.py')
        ctx.fact('selftest', 'write through a view', call('view', tensor('a', (3,)), sc('n'))[1] == ['a'], '', 'props/p13.py')
        ctx.fact('selftest', 'copies', call('clean', tensor('a', (3,)), tensor('b', (3,)))[1] == [], '', 'props/p13.py')
        a, b = tensor('a', (3,)), tensor('b', (3,))
        ra = call('keyed', a)[0]
        rb = call('keyed', b)[0]
        ctx.fact('selftest', 'cache keyed on the length', same(ra, rb), '', 'props/p13.py')
        x = call('acc', sc('x'))[0]
        y = call('acc', sc('x'))[0]
        ctx.fact('selftest', 'default argument', not same(x, y), '', 'props/p13.py')
    finally:
        import shutil
        shutil.rmtree(d)


# ---------------------------------------------------------------------------------------------------- what a step is handed stays as it is
def lent(ctx):
    ps = pipelines(ctx) + [p_run('jib_and_main', 'exponential'), p_run('jib', 'logarithmic')]
    watch = {PKG + '.' + q for q in STEPS_API}
    seen = {}
    for p in ps:
        box = []
        real = ctx.interp

        def interp(cuts=None):
            I = real(cuts)
            I.steps = watch
            box.append(I)
            return I
        ctx.interp = interp
        keep = []
        try:
            if p.label.startswith('run'):
                r = run_main(ctx, 1, 2, p.label.split()[1].rstrip(','), p.label.split()[2], 'linear')
            else:
                p(ctx)
        finally:
            del ctx.interp
        for I in box:
            bad = {}
            for e in I.events:
                if e.kind == 'mutate_arg':
                    bad.setdefault(e.data['fn'], []).append(e)
            for q in sorted(I.stepped):
                short = q.replace(PKG + '.', '')
                if q not in bad:
                    ctx.fact('arguments-unchanged', '%s in %s' % (short, p.label), True)
                for e in bad.get(q, []):
                    t = e.data['where']
                    ctx.never('arguments-unchanged', '%s in %s' % (short, p.label), e.pc, True, I.fmtloc(t[0] if t else e.loc),
                              '%s changes its argument %s (%s in %s)' % (short, e.data['label'], t[2] if t else 'write', t[1] if t else '?'))
                seen[short] = seen.get(short, 0) + I.stepped[q]
    ctx.steps_seen = seen
    return seen


CLOCK = ('time.', 'datetime.')


def reads(ctx):
    """nothing outside the arguments is read while computing"""
    for p in pipelines(ctx):
        box = []
        real = ctx.interp

        def interp(cuts=None):
            I = real(cuts)
            box.append(I)
            return I
        ctx.interp = interp
        try:
            r = p(ctx)
        finally:
            del ctx.interp
        writes = p.label.startswith('workbook')
        known = not any(isinstance(v, Opaque) for _, v in flat(r))
        for I in box:
            bad = []
            for e in I.events:
                if e.pc is False or e.loc and e.loc[0] and 'container.py' in str(e.loc[0]):
                    continue
                if e.kind == 'impure':
                    if not (str(e.data['fn']).startswith(CLOCK) and known):
                        bad.append((e, 'calls ' + str(e.data['fn'])))
                elif e.kind == 'env_read' and not (str(e.data['what']).startswith('os.path') or str(e.data['what']) == 'os.getcwd'):
                    bad.append((e, 'reads ' + str(e.data['what'])))
                elif e.kind == 'open' and not sink(e):
                    bad.append((e, 'reads the file %r' % (e.data.get('path'),)))
                elif sink(e) and not writes:
                    bad.append((e, 'writes %r' % (sink(e)[1],)))
            ctx.fact('no-outside-reads', p.label, not bad, '; '.join(b for _, b in bad[:3]), I.fmtloc(bad[0][0].loc) if bad else loc_of(ctx, p))


STEPS = [selftest, defaults, histories, partial, runs, methods, keel_twice, lent, reads]
