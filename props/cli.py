"""The command-line run on a symbolic case: every setting of variables.py is its own symbol."""
from props.results import *
from props.rig import *
from props.p08 import settings as wind_settings

VLMQ = PKG + '.solver.vlm.Vlm'
MAIN = 'runner.cli.main'


def case_module(I, b, w, nc, ns, sails_def, profile, interp, change=None):
    """the user's variables.py; `change`: {(dict, key): value or DROP}"""
    kl = lambda k: {n: copy_table(v) for n, v in b.sail[k].items()}
    d = dict(
        output_args=dict(case_name=strsym('case_name'), case_dir=strsym('case_dir'), name=strsym('out_dir'), file_name=strsym('file_name')),
        solver_args=dict(n_spanwise=ns, n_chordwise=nc, interpolation_type=interp),
        conditions_args=dict(leeway_deg=b.lee, heel_deg=b.heel, SOG_yacht=w.sog, tws_ref=w.tws, alpha_true_wind_deg=w.alpha,
                             reference_water_level_for_wind_profile=w.wl, wind_exp_coeff=w.k, wind_reference_measurment_height=w.href,
                             rho=b.rho, wind_profile=profile, roughness=w.z0),
        rig_args=dict(b.rig, sails_def=sails_def),
        main_sail_args=kl('main'), jib_sail_args=kl('jib'),
        csys_args=dict(reference_level_for_moments=Arr(b.ref.a.copy(), 'f')),
        keel_args=dict(center_of_lateral_resistance_upright=Arr(b.clr.a.copy(), 'f')))
    for (n, k), v in (change or {}).items():
        if v is DROP:
            d[n].pop(k)
        else:
            d[n][k] = v
    m = ModuleVal('variables', '<case directory>/variables.py')
    for n, v in d.items():
        m.env[n] = I.mkdict(v)
    return m


DROP = object()


class Run:
    pass


def full_boat():
    b = boat()
    b.rho = sc('rho', '+')
    b.clr = Arr(np.array([sc('clr.x'), sc('clr.y'), sc('clr.z', '-')] + [None], dtype=object)[:-1], 'f')
    return b


def stub_solution(ctx, I, r):
    """stands for Vlm(panels, n_chordwise, n_spanwise, rho, wind, trailing marks, leading marks): arguments recorded, results symbolic"""
    names = ['panels', 'n_chordwise', 'n_spanwise', 'rho', 'wind', 'trailing_edge_info', 'leading_edge_info']

    def cut(I, c, args, kw):
        env = dict(zip(names, args))
        env.update(kw)
        env['@pc'] = I.pc
        r.calls.append(env)
        K = r.K
        cp = np.empty((K, 3), dtype=object)
        for k in range(K):
            cp[k] = [sc('cp%d.x' % k), sc('cp%d.y' % k), sc('cp%d.z' % k, '+' if k < K // 2 else '-')]
        cp = Arr(cp, 'f')
        r.cp = cp
        r.F, r.Vi, r.Vf, r.L, r.D = (tensor(n, (K, 3)) for n in ('F', 'Vi', 'Vf', 'L', 'D'))
        r.G, r.p, r.pc_, r.areas = tensor('G', (K,)), tensor('p', (K,)), tensor('cpc', (K,)), tensor('A', (K,), '+')
        icq = ctx.get(I, 'inlet.inlet_conditions.InletConditions')
        r.ic = I.call(icq, [env['wind'], env['rho'], cp], {})
        mid = lambda n: tensor(n, (K, 3))
        return OpaqueInst('solution', dict(
            panels=env['panels'], n_chordwise=env['n_chordwise'], n_spanwise=env['n_spanwise'], rho=env['rho'], wind=env['wind'],
            trailing_edge_info=env['trailing_edge_info'], leading_edge_info=env['leading_edge_info'], cp=cp, ctr_p=mid('ctr'), normals=mid('nrm'),
            rings=tensor('ring', (K, 4, 3)), span_vectors=mid('span'), leading_mid_points=mid('le'), trailing_mid_points=mid('tem'),
            inlet_conditions=r.ic, force=r.F, lift=r.L, drag=r.D, V_induced_at_cp=r.Vi, V_app_fs_at_cp=r.Vf, gamma_magnitude=r.G,
            pressure=r.p, p_coeffs=r.pc_, areas=r.areas), ctx.get(I, 'solver.vlm.Vlm'))
    return cut


def run_main(ctx, nc, ns, sails_def, profile='exponential', interp='spline', change=None, b=None, w=None, cuts=None, names=None, module=None):
    r = Run()
    r.b, r.w = b or full_boat(), w or wind_settings()
    r.nc, r.ns, r.S = nc, ns, len(KINDS.get(sails_def, ['?', '?'])) if isinstance(sails_def, str) else 2
    r.K = 2 * nc * ns * r.S
    r.calls = []
    r.cs = []
    I = r.I = ctx.interp(dict(CUTS_GEOM))
    I.cuts[VLMQ] = stub_solution(ctx, I, r)
    I.cuts.update(cuts or {})
    r.dvars = strsym('cli dvars')
    make = module or (lambda I: case_module(I, r.b, r.w, nc, ns, sails_def, profile, interp, change))

    def case(I):
        I.ev('case_read')
        return make(I)
    I.extmods['variables'] = case
    r.ret = ctx.call(I, MAIN)
    r.pc = I.pc
    r.raises = list(I.raises[0])
    r.events = list(I.events)
    r.loc = ctx.anchorloc(MAIN)
    r.name = '%s, %dx%d panels, %s wind' % (sails_def, nc, ns, profile)
    return r


# ---------------------------------------------------------------------------------------------------- what a run writes
SAVES = ('savefig', 'save', 'imsave', 'print_figure', 'tofile', 'to_file', 'output_file', 'savefile', 'write_html', 'write_image', 'dump', 'NamedTemporaryFile', 'mkdtemp', 'mkstemp',
         'TemporaryDirectory', 'FileHandler')
PATH_KW = ('fname', 'filename', 'path', 'basename', 'file', 'fp', 'dst')
SINKS = ('mkdir', 'open', 'file_copy', 'file_move', 'delete', 'process', 'df_write')


def pathlike(v):
    if isinstance(v, ExtObj) and v.kind == 'path':
        return v.data['s']
    return v if isinstance(v, (str, SStr)) else None


def sink(e):
    """None when the event writes nothing, else (what is done, path or UNKNOWN)"""
    d = e.data
    if e.kind == 'open':
        m = d.get('mode') or 'r'
        if isinstance(m, str) and not any(c in m for c in 'wax+'):
            return None
        return 'open for writing', pathlike(d.get('path')) or UNKNOWN
    if e.kind == 'mkdir' or e.kind == 'delete':
        return e.kind, pathlike(d.get('path')) or UNKNOWN
    if e.kind in ('file_copy', 'file_move'):
        return e.kind, pathlike(d.get('dst')) or UNKNOWN
    if e.kind == 'process':
        return 'process', UNKNOWN
    if e.kind == 'df_write':
        dst = d.get('dst')
        if isinstance(dst, ExtObj) and dst.kind != 'path':
            return 'table', dst.data.get('path', UNKNOWN)
        return 'table', pathlike(dst) or UNKNOWN
    if e.kind == 'ext_call':
        n = d['name'].split('.')[-1]
    elif e.kind == 'extobj_call':
        n = d['obj'].data.get('@attr') if isinstance(d['obj'], ExtObj) else None
    else:
        return None
    if n not in SAVES:
        return None
    if n in ('NamedTemporaryFile', 'mkdtemp', 'mkstemp', 'TemporaryDirectory'):
        v = d['kw'].get('dir')
        return n, pathlike(v) or mkstr(['/tmp/'])
    for v in list(d['args']) + [d['kw'].get(k) for k in PATH_KW]:
        v = pathlike(v)
        if v is not None:
            return n, v
    return (n, UNKNOWN) if d['args'] or d['kw'] else None


class Unknown:
    def __repr__(self):
        return 'a path that is not known'


UNKNOWN = Unknown()


def present(r):
    """assumption: the user's own files are there"""
    a = True
    for root in ('cli dvars', 'case_dir'):
        for e in (r.dvars if root == 'cli dvars' else strsym('case_dir'),):
            for t in ([], ['/variables.py'], ['/', strsym('case_name')]):
                p = mkstr([e] + t)
                for q in ('exists', 'isfile'):
                    a = g_and(a, pred(mk_atom('sym', 'os.path.%s(%s)' % (q, repr(dkey(p))))))
    return a
