"""Sail surfaces: contracts used while interpreting the geometry code, and the specified surface."""
from props.common import *
from props.p09 import rodrigues, unit, heeled
from sa import prove

AIRFOIL = PKG + '.thin_airfoil.vlm_airfoil.VlmAirfoil'
ROTATE = PKG + '.rotations.geometry_calc.rotate_points_around_arbitrary_axis'
GEOM = 'yacht_geometry.sail_geometry.'


# ---- contracts (each is decided by its own rule: airfoil by P02, rotation by P09)
def camber(m, p, x):
    x = x if isinstance(x, (Poly, DD)) else P(x)
    if isinstance(x, Poly) and x.const() in (0, 1):
        return ZERO
    return app('camber', m, p, x)


def _f_camber(env, m, p, x):
    if x < p:
        return m * (2 * p * x - x * x) / (p * p)
    if p == 1:
        raise prove.Undefined('camber')
    return m * (1 - 2 * p + 2 * p * x - x * x) / (1 - p) ** 2


def _f_rot(env, i, q, p1, p2, th):
    mp = prove.mpmath
    d = [p2[k] - p1[k] for k in range(3)]
    n = mp.sqrt(sum(x * x for x in d))
    if n == 0:
        raise prove.Undefined('no axis')
    u = [x / n for x in d]
    r = [q[k] - p1[k] for k in range(3)]
    c = [u[1] * r[2] - u[2] * r[1], u[2] * r[0] - u[0] * r[2], u[0] * r[1] - u[1] * r[0]]
    s = sum(u[k] * r[k] for k in range(3))
    k = int(i)
    return p1[k] + mp.cos(th) * r[k] + mp.sin(th) * c[k] + (1 - mp.cos(th)) * s * u[k]


prove.FUNCS.update({'camber': _f_camber, 'ROT': _f_rot})


def rot(q, p1, p2, th):
    q, p1, p2 = tuple(q), tuple(p1), tuple(p2)
    if same(th, ZERO):
        return np.array(list(q) + [None], dtype=object)[:-1]
    return np.array([app('ROT', P(i), q, p1, p2, th) for i in range(3)] + [None], dtype=object)[:-1]


def cut_airfoil(I, c, args, kw):
    names = ['max_camber', 'max_camber_position', 'thickness', 'n']
    env = dict(zip(names, args))
    env.update(kw)
    m, p = env.get('max_camber'), env.get('max_camber_position')
    n = I.toint(env.get('n', 100))
    if m is None or p is None or not isinstance(n, int) or n < 2:
        return NotImplemented
    if isinstance(m, (Poly, int)) and num(m).const() is not None and isinstance(p, (Poly, int)) and num(p).const() is not None:
        return NotImplemented                   # a fixed profile (hull outline) is interpreted as it is
    xs = [P(Q(i, n - 1)) for i in range(n)]
    return OpaqueInst('airfoil', dict(xc=arr(xs), yc=Arr(np.array([camber(m, p, x) for x in xs] + [None], dtype=object)[:-1], 'f'), n=n), c)


def cut_rotate(I, f, args, kw):
    xs = argmap(f, args, kw)
    if xs is None or len(xs) != 4:
        return NotImplemented
    ps, p1, p2 = (I.asarray(x) for x in xs[:3])
    if not all(isinstance(x, Arr) for x in (ps, p1, p2)) or ps.a.ndim != 2 or ps.a.shape[1] != 3 or p1.a.shape != (3,) or p2.a.shape != (3,):
        return NotImplemented
    out = np.empty(ps.a.shape, dtype=object)
    for k in range(len(ps.a)):
        out[k] = rot(ps.a[k], p1.a, p2.a, xs[3])
    return I.mkarr(out)


CUTS_GEOM = {AIRFOIL: cut_airfoil, ROTATE: cut_rotate}


# ---- symbolic sails
class S_:
    pass


def stations(name, n, sign=None, rng=None):
    return tensor(name, (n,), sign=sign, rng=rng)


def sail_data(ns, name='s'):
    d = S_()
    n = ns + 1
    d.name = name
    tz = sc(name + '.tack.z', '+')
    d.tack = np.array([sc(name + '.tack.x'), ZERO, tz] + [None], dtype=object)[:-1]
    d.head = np.array([sc(name + '.head.x'), ZERO, g_add(tz, sc(name + '.rise', '+'))] + [None], dtype=object)[:-1]
    d.chords = stations(name + '.chord', n, '+')
    d.twist = stations(name + '.twist', n, rng=(-30, 30))
    d.camber = stations(name + '.camber', n, rng=(0, 0.3))
    d.pos = stations(name + '.campos', n, rng=(0.1, 0.9))
    return d


def A(x):
    return Arr(np.array(list(x) + [None], dtype=object)[:-1], 'f')


def make_sail(ctx, I, d, nc, ns, cs, mode='real_twist', twist=True):
    return ctx.call(I, GEOM + 'SailGeometry', A(d.head), A(d.tack), cs, n_spanwise=ns, n_chordwise=nc, chords=Arr(d.chords.a.copy(), 'f'),
                    initial_sail_twist_deg=Arr(d.twist.a.copy(), 'f') if twist else None, name=d.name, LLT_twist=mode if twist else None,
                    interpolated_camber=Arr(d.camber.a.copy(), 'f'), interpolated_distance_from_luff=Arr(d.pos.a.copy(), 'f'))


def twist_of(d, mode, n):
    t = list(d.twist.a)
    if mode is None:
        return [ZERO] * n
    if mode == 'sheeting_angle_const':
        m = t[0]
        for x in t[1:]:
            m = ite(gt(m, x), x, m)
        return [m] * n
    if mode == 'average_const':
        return [g_div(gsum(t), P(n))] * n
    return t


def flat_grid(d, nc, ns):
    """upright, untwisted surface: grid[chordwise line i][station j]"""
    g = [[None] * (ns + 1) for _ in range(nc + 1)]
    for j in range(ns + 1):
        f = Q(j, ns)
        le = vadd(vscale(d.tack, P(1 - f)), vscale(d.head, P(f)))
        for i in range(nc + 1):
            x = Q(i, nc)
            c = d.chords.a[j]
            g[i][j] = vadd(le, [g_mul(c, P(x)), g_mul(c, camber(d.camber.a[j], d.pos.a[j], x)), ZERO])
    return g


def surface(d, nc, ns, heel, lee, mode):
    g = flat_grid(d, nc, ns)
    tw = twist_of(d, mode, ns + 1)
    h = [[heeled(p, heel, lee) for p in row] for row in g]
    if mode is None:
        return h
    p1, p2 = h[0][0], h[0][ns]
    return [[rot(h[i][j], p1, p2, d2r(tw[j])) for j in range(ns + 1)] for i in range(nc + 1)]


def panels_of(g, nc, ns):
    """corners SE, SW, NW, NE of every panel, chordwise row by row, spanwise within a row"""
    out = np.empty((nc * ns, 4, 3), dtype=object)
    for i in range(nc):
        for j in range(ns):
            out[i * ns + j, 0] = g[i + 1][j]
            out[i * ns + j, 1] = g[i][j]
            out[i * ns + j, 2] = g[i][j + 1]
            out[i * ns + j, 3] = g[i + 1][j + 1]
    return out


def mirror(p):
    return np.array([p[0], p[1], g_neg(p[2])] + [None], dtype=object)[:-1]


def mirrored_panels(above, nc, ns):
    """the mirror image: spanwise from the mirrored head up to the water, corners so that the circulation is that of the image"""
    out = np.empty(above.shape, dtype=object)
    for i in range(nc):
        for j in range(ns):
            src = above[i * ns + ns - 1 - j]
            for c in range(4):
                out[i * ns + j, c] = mirror(src[3 - c])
    return out


def edge_flags(nc, ns):
    return [i == nc - 1 for i in range(nc) for j in range(ns)], [i == 0 and nc > 1 for i in range(nc) for j in range(ns)]
