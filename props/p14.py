"""P14  Invalid input stops the run with a failing status before anything is produced."""
from props.cli import *
from sa.npmodel import *  # noqa

TITLE = 'Invalid input stops the run with a failing status before anything is produced'
RULE = ('The entry point and the option checks are interpreted on every kind of invalid input; no path may return normally, leave with a '
        'success status, or reach a solution, a table or a file; on every valid configuration no error may be reachable.')
MIN = 150


def status(e):
    """True: a failing end, False: a success status, None: not known"""
    if not isinstance(e, ExcVal):
        return None
    name = e.cls if isinstance(e.cls, str) else getattr(e.cls, 'name', '?')
    if name != 'SystemExit':
        return True
    if not e.args or e.args[0] is None:
        return False
    a = e.args[0]
    if isinstance(a, bool):
        return a
    if isinstance(a, (str, SStr)):
        return True
    if isinstance(a, (int, Poly)):
        c = P(a).const()
        return None if c is None else c != 0
    return None


def must_stop(ctx, rule, inst, I, pc, raises, events, calls, loc, assume=True):
    ctx.never(rule, inst, pc, assume, loc, 'the run ends normally')
    for p, e, l, q in raises:
        st = status(e)
        if st is True:
            continue
        where = '%s (%s)' % (I.fmtloc(l), q)
        if st is None:
            ctx.fact(rule, inst + ', status', None, 'exit status not known: %s' % exc_str(e), where)
        else:
            ctx.never(rule, inst + ', status', p, assume, where, 'ends with a success status: %s' % exc_str(e))
    for c in calls:
        ctx.never(rule, inst + ', solution', c['@pc'], assume, loc, 'a solution is computed')
    for e in events:
        s = sink(e)
        if s:
            what = '%s %r' % s
            ctx.never(rule, inst + ', nothing written', e.pc, assume, I.fmtloc(e.loc), 'writes before it stops: %s' % what)


def bad_run(ctx, rule, inst, sails='jib_and_main', prof='exponential', interp='linear', change=None, module=None, cuts=None, nc=1, ns=1):
    r = run_main(ctx, nc, ns, sails, prof, interp, change=change, module=module, cuts=cuts)
    must_stop(ctx, rule, inst, r.I, r.pc, r.raises, r.events, r.calls, r.loc)
    return r


OTHER = strsym('something else', True)
# words that are no documented option although they resemble one
BAD = {'wind_profile': ['exp', 'log', 'constant', ''], 'sails_def': ['jibs', 'main_jib', 'both', ''], 'interpolation_type': ['cubic', 'lin', '']}
WHERE = {'wind_profile': 'conditions_args', 'sails_def': 'rig_args', 'interpolation_type': 'solver_args'}


def options(ctx):
    for opt, words in BAD.items():
        for v in [OTHER, None] + words:
            bad_run(ctx, 'unknown-' + opt.replace('_', '-'), '%s = %r' % (opt, v if not isinstance(v, SStr) else 'any other word'), change={(WHERE[opt], opt): v})


NEEDS = {'exponential': ['wind_exp_coeff', 'wind_reference_measurment_height'], 'logarithmic': ['roughness', 'wind_reference_measurment_height']}
RIG = {'jib': ['foretriangle_base', 'foretriangle_height', 'jib_luff'], 'main': ['main_sail_luff']}
SAIL_T = ['girths', 'chords', 'camber', 'camber_distance_from_luff']
ARGS = {'jib': 'jib_sail_args', 'main': 'main_sail_args'}


def missing(ctx):
    for prof, names in NEEDS.items():
        for n in names:
            bad_run(ctx, 'empty-wind-setting', '%s, %s' % (prof, n), prof=prof, change={('conditions_args', n): None})
    for sails, kinds in KINDS.items():
        for k in kinds:
            for n in RIG[k]:
                bad_run(ctx, 'empty-rig-setting', '%s, %s' % (sails, n), sails=sails, change={('rig_args', n): None})
            for n in SAIL_T:
                bad_run(ctx, 'empty-sail-table', '%s, %s of the %s' % (sails, n, k), sails=sails, change={(ARGS[k], n): None})
    # several at once, including settings of both sails
    bad_run(ctx, 'empty-rig-setting', 'jib_and_main, both luffs', change={('rig_args', 'jib_luff'): None, ('rig_args', 'main_sail_luff'): None})
    bad_run(ctx, 'empty-sail-table', 'jib_and_main, both chords', change={('jib_sail_args', 'chords'): None, ('main_sail_args', 'chords'): None})


def sail_objects(ctx):
    """the same on the sail builder directly, and a whole sail missing"""
    def build_(sails, **over):
        I = ctx.interp(dict(CUTS_GEOM))
        b = full_boat()
        c = containers(ctx, I, b, 1, 1, sails, 'linear')
        for k, v in over.items():
            setattr(c, k, v)
        s = ctx.call(I, 'runner.sail.Sail', c.solver, c.rig, c.main, c.jib, c.cs)
        pc, raises = I.pc, list(I.raises[0])
        if s is not UNSET and pc is not False:
            n0 = len(I.raises[0])
            st = I.getattr_(s, 'sail_set')
            pc, raises = I.pc, list(I.raises[0])
        return I, pc, raises
    loc = ctx.anchorloc('runner.sail.Sail')
    for sails, kinds in KINDS.items():
        for k in kinds:
            I, pc, raises = build_(sails, **{k: None})
            must_stop(ctx, 'missing-sail', '%s without %s' % (sails, k), I, pc, raises, [], [], ctx.anchorloc('runner.sail.Sail'))
        for k in ('jib', 'main'):
            if k not in kinds:
                I, pc, raises = build_(sails, **{k: None})
                ok(ctx, '%s alone, no %s given' % (sails, k), I, pc, raises, ctx.anchorloc('runner.sail.Sail'))


def ok(ctx, inst, I, pc, raises, loc, assume=True):
    if not raises:
        ctx.fact('valid-accepted', inst, pc is not False, 'never completes', loc)
    for p, e, l, q in raises:
        ctx.never('valid-accepted', inst, p, assume, '%s (%s)' % (I.fmtloc(l), q), 'valid input is rejected: %s' % exc_str(e))


def tables(ctx):
    """girth tables of different lengths"""
    for sails, kinds in KINDS.items():
        for k in kinds:
            n = len(NODES[k])
            for t in SAIL_T + ['centerline_twist_deg']:
                for m in (n - 1, n + 1, 1):
                    if m == 1 and not (ctx.thorough or t == 'chords'):
                        continue
                    v = tensor('short.' + t, (m,), rng=(0.1, 0.2)) if t != 'girths' else arr([Q(i, max(m - 1, 1)) for i in range(m)])
                    bad_run(ctx, 'unequal-tables', '%s, %s of the %s has %d entries instead of %d' % (sails, t, k, m, n), sails=sails, change={(ARGS[k], t): v})


def case_file(ctx):
    for exc in ('ImportError', 'ModuleNotFoundError', 'SyntaxError', 'FileNotFoundError'):
        bad_run(ctx, 'unreadable-case-file', exc, module=lambda I: I.raise_b(exc, 'case file'))
    for d in ('output_args', 'conditions_args', 'solver_args', 'main_sail_args', 'jib_sail_args', 'csys_args', 'keel_args', 'rig_args'):
        def gap(I, d=d):
            m = case_module(I, full_boat(), wind_settings(), 1, 1, 'jib_and_main', 'exponential', 'linear')
            m.env.pop(d)
            return m
        bad_run(ctx, 'incomplete-case-file', 'no ' + d, module=gap)


FOIL = 'thin_airfoil.vlm_airfoil.VlmAirfoil'
LIMITS = [('camber', 0, Q(3, 10)), ('camber position', 0, Q(9, 10)), ('thickness', 0, Q(4, 10))]


def airfoil(ctx):
    """limits of camber, its position and the thickness: rejected exactly outside"""
    mid = [P(Q(1, 10)), P(Q(1, 2)), P(Q(1, 10))]
    for i, (name, lo, hi) in enumerate(LIMITS):
        I = ctx.interp()
        v = sc('param%d' % i, rng=(-1, 2))
        a = list(mid)
        a[i] = v
        ctx.call(I, FOIL, a[0], a[1], a[2], 4)
        loc = ctx.anchorloc(FOIL)
        pc, raises = I.pc, list(I.raises[0])
        inside = g_and(ge(v, P(lo)), ge(P(hi), v))
        for side, assume in (('above', gt(v, P(hi))), ('below', gt(P(lo), v))):
            must_stop(ctx, 'airfoil-limit', '%s %s its range' % (name, side), I, pc, raises, [], [], loc, assume)
        strict = g_and(gt(v, P(lo)), gt(P(hi), v))
        for p, e, l, q in raises:
            ctx.never('airfoil-accepted', name + ' in range', p, strict, '%s (%s)' % (I.fmtloc(l), q), 'valid airfoil is rejected: %s' % exc_str(e))
        for w in (lo, hi):
            a[i] = P(w)
            ctx.call(I, FOIL, a[0], a[1], a[2], 4)
            ctx.no_raise('airfoil-accepted', '%s = %s' % (name, w), I)
    # reached through the sails: the profile is really checked there
    cut = {AIRFOIL: lambda I, c, a, k: NotImplemented}
    for k in ('jib', 'main'):
        n = len(NODES[k])
        for t, bad in (('camber', Q(35, 100)), ('camber', Q(-1, 100)), ('camber_distance_from_luff', Q(95, 100)), ('camber_distance_from_luff', Q(-1, 10))):
            other = 'camber' if t != 'camber' else 'camber_distance_from_luff'
            bad_run(ctx, 'airfoil-limit', '%s, %s = %s' % (k, t, bad), sails=k, change={(ARGS[k], t): arr([bad] * n), (ARGS[k], other): arr([Q(1, 5)] * n)}, cuts=cut)
            if k == 'main' and ctx.thorough or t == 'camber':
                # a single bad station among good ones
                v = [Q(1, 10)] * n
                v[0] = bad
                bad_run(ctx, 'airfoil-limit', '%s, foot %s = %s' % (k, t, bad), sails=k, change={(ARGS[k], t): arr(v), (ARGS[k], other): arr([Q(1, 5)] * n)}, cuts=cut)


def force_kind(ctx):
    q = 'solver.forces.calc_force_wrapper'
    for K, nc, ns in ((1, 1, 1), (2, 2, 1)):
        args = lambda: [tensor('V', (K, 3)), tensor('G', (K,)), sc('rho', '+'), tensor('cp', (K, 3)), tensor('ring', (K, 4, 3)), ns, tensor('n', (K, 3)), tensor('s', (K, 3)),
                        barr([k >= K - ns for k in range(K)]), barr([k < ns and nc > 1 for k in range(K)])]
        for name in [OTHER, None, 'Lift', 'force', 'xyz', '']:
            I = ctx.interp(CUTS_VORTEX)
            ctx.call(I, q, *args(), name)
            must_stop(ctx, 'unknown-force-kind', '%r, %d panels' % (name if not isinstance(name, SStr) else 'any other word', K), I, I.pc, list(I.raises[0]), [], [], ctx.anchorloc(q))
        for name in ('lift', 'drag', 'force_xyz'):
            I = ctx.interp(CUTS_VORTEX)
            ctx.call(I, q, *args(), name)
            ok(ctx, 'force kind %s, %d panels' % (name, K), I, I.pc, list(I.raises[0]), ctx.anchorloc(q))


def twist_mode(ctx):
    from props.p02 import make_sail, sail_data
    for mode in [OTHER, 'real', '']:
        I = ctx.interp(dict(CUTS_GEOM))
        cs = ctx.call(I, 'rotations.csys_transformations.CSYS_transformations', sc('heel', rng=(-40, 40)), sc('leeway', rng=(-20, 20)), vec('ref'))
        make_sail(ctx, I, sail_data(1), 1, 1, cs, mode)
        must_stop(ctx, 'unknown-twist-mode', '%r' % (mode if not isinstance(mode, SStr) else 'any other word'), I, I.pc, list(I.raises[0]), [], [],
                  ctx.anchorloc('yacht_geometry.sail_geometry.SailGeometry'))


def plot_name(ctx):
    q = 'solver.panels_plotter.plot_section_coeff'
    for name in [OTHER, None, 'cl', 'Lift', '']:
        I = ctx.interp()
        n0 = len(I.events)
        ctx.call(I, q, I.mklist([tensor('x', (2,))]), I.mklist([tensor('y', (2,))]), strsym('out_dir'), name, I.mklist(['blue', 'green']))
        must_stop(ctx, 'unknown-coefficient', '%r' % (name if not isinstance(name, SStr) else 'any other word'), I, I.pc, list(I.raises[0]), I.events[n0:], [], ctx.anchorloc(q))
    for name in ('lift', 'drag'):
        I = ctx.interp()
        ctx.call(I, q, I.mklist([tensor('x', (2,))]), I.mklist([tensor('y', (2,))]), strsym('out_dir'), name, I.mklist(['blue', 'green']))
        ok(ctx, 'section plot of ' + name, I, I.pc, list(I.raises[0]), ctx.anchorloc(q))


def valid(ctx):
    for sails in KINDS:
        for prof in ('exponential', 'flat', 'logarithmic'):
            for interp in ('linear', 'spline'):
                r = run_main(ctx, 1, 1, sails, prof, interp)
                ok(ctx, '%s, %s wind, %s' % (sails, prof, interp), r.I, r.pc, r.raises, r.loc, present(r))
                ctx.fact('valid-accepted', '%s, %s wind, %s, solved' % (sails, prof, interp), len(r.calls) == 1, '%d solutions' % len(r.calls), r.loc)
    # settings that the chosen configuration does not use may be empty
    idle = [('exponential', 'main', {('conditions_args', 'roughness'): None}), ('logarithmic', 'main', {('conditions_args', 'wind_exp_coeff'): None}),
            ('flat', 'jib', {('conditions_args', 'roughness'): None})]
    idle += [('exponential', 'main', {('rig_args', n): None}) for n in RIG['jib'] + ['mast_LOA'] if n != 'foretriangle_base']
    idle += [('exponential', 'jib', {('rig_args', n): None}) for n in RIG['main'] + ['boom_above_sheer']]
    for prof, sails, ch in idle:
        r = run_main(ctx, 1, 1, sails, prof, 'linear', change=ch)
        ok(ctx, '%s, %s wind, %s not needed' % (sails, prof, list(ch)[0][1]), r.I, r.pc, r.raises, r.loc, present(r))
    # equal tables of any length
    for n in (2, 3, 6):
        ch = {('main_sail_args', t): tensor('t.' + t, (n,), rng=RANGES[t]) for t in TABLES}
        ch[('main_sail_args', 'girths')] = arr([Q(i, n - 1) for i in range(n)])
        r = run_main(ctx, 1, 1, 'main', 'exponential', 'linear', change=ch)
        ok(ctx, 'main, tables of %d entries' % n, r.I, r.pc, r.raises, r.loc, present(r))


STEPS = [options, missing, sail_objects, tables, case_file, airfoil, force_kind, twist_mode, plot_name, valid]
