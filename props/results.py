"""An InviscidFlowResults object over symbolic forces, points and circulations."""
from props.common import *


class Res:
    pass


def frame(ctx, I, ref=None):
    heel, lee = sc('heel', rng=(-40, 40)), sc('leeway', rng=(-20, 20))
    ref = ref if ref is not None else vec('ref')
    cs = ctx.call(I, 'rotations.csys_transformations.CSYS_transformations', heel, lee, ref)
    return cs, heel, lee, ref


SAILS = {1: ['main_sail'], 2: ['jib', 'main_sail']}


def results(ctx, nc, ns, S, own=False, names=None, cp=None, scale=None):
    """scale: quantity -> factor its values are multiplied with"""
    R = Res()
    I = R.I = ctx.interp()
    R.nc, R.ns, R.S = nc, ns, S
    R.K = K = 2 * nc * ns * S
    R.name = '%dx%d panels, %d sail%s' % (nc, ns, S, 's' if S > 1 else '')
    R.cs, R.heel, R.lee, R.ref = frame(ctx, I)
    R.F, R.V, R.Vind, R.Vfs = tensor('F', (K, 3)), tensor('V', (K, 3)), tensor('Vi', (K, 3)), tensor('Vf', (K, 3))
    given, cp = cp, np.empty((K, 3), dtype=object)
    for k in range(K):
        cp[k] = given[k] if given is not None else [sc('cp%d.x' % k), sc('cp%d.y' % k), sc('cp%d.z' % k, '+' if k < K // 2 else '-')]
    R.cp = Arr(cp, 'f')
    R.G, R.p, R.cpf = tensor('G', (K,)), tensor('p', (K,)), tensor('cpc', (K,))
    for n, c in (scale or {}).items():
        v = getattr(R, n)
        v.a = np.vectorize(lambda x: g_mul(x, c), otypes=[object])(v.a)
    vc = ctx.get(I, 'solver.vlm.Vlm')
    R.vlm = OpaqueInst('solution', dict(gamma_magnitude=R.G, pressure=R.p, V_induced_at_cp=R.Vind, V_app_fs_at_cp=R.Vfs,
                                        force=R.F, cp=R.cp, p_coeffs=R.cpf, n_spanwise=ns, n_chordwise=nc), vc)
    names = names or SAILS[S]
    R.sailnames = names
    gc = ctx.get(I, 'yacht_geometry.sail_geometry.SailGeometry')
    R.tacks = [Arr(np.array([sc('tack%d.x' % i), ZERO, sc('tack%d.z' % i, '+')], dtype=object), 'f') for i in range(S)]
    sails = [OpaqueInst(n, dict(name=n, csys_transformations=R.cs, tack_mounting=R.tacks[i]), gc) for i, n in enumerate(names)]
    R.set = OpaqueInst('sail set', dict(sails=I.mklist(sails)), ctx.get(I, 'yacht_geometry.sail_geometry.SailSet'))
    if own:
        for n, v in (('force', R.F), ('cp', R.cp), ('circulation', R.G), ('pressure', R.p), ('reference', R.ref)):
            I.own(v, n)
    n0 = len(I.raises[0])
    R.res = ctx.call(I, 'results.inviscid_flow.InviscidFlowResults', R.set, R.cs, R.vlm)
    R.loc = ctx.anchorloc('results.inviscid_flow.InviscidFlowResults')
    return R


def rotz(v, a):
    """rotation about z by the angle a (radians)"""
    c, s = g_cos(a), g_sin(a)
    return np.array([g_sub(g_mul(c, v[0]), g_mul(s, v[1])), g_add(g_mul(s, v[0]), g_mul(c, v[1])), v[2]], dtype=object)


def rotx(v, a):
    c, s = g_cos(a), g_sin(a)
    return np.array([v[0], g_sub(g_mul(c, v[1]), g_mul(s, v[2])), g_add(g_mul(s, v[1]), g_mul(c, v[2]))], dtype=object)
