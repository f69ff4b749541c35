"""P12  Section coefficients are area-weighted strip values per sail above the water."""
from props.common import *

TITLE = 'Section coefficients are area-weighted strip values per sail above the water'
RULE = ('Strip coefficients, their normalisation and the strip heights computed for symbolic forces, winds, areas and points of '
        'every grid shape are compared with the area-weighted means over the panels of the strip they belong to.')
MIN = 40
C = 'solver.coefs.'


def model(K):
    m = dict(panels=tensor('P', (K, 4, 3)), areas=tensor('A', (K,), sign='+'), wind=tensor('V', (K, 3)), rho=sc('rho', '+'),
             lift=tensor('L', (K, 3)), drag=tensor('D', (K, 3)), force=tensor('F', (K, 3)))
    cp = np.empty((K, 3), dtype=object)
    for k in range(K):
        cp[k] = [sc('cp%d.x' % k), sc('cp%d.y' % k), sc('cp%d.z' % k, '+' if k < K // 2 else '-')]
    m['cp'] = Arr(cp, 'f')
    return m


def strips(s, nc, ns):
    return [[s * nc * ns + i * ns + j for i in range(nc)] for j in range(ns)]


def section(m, F, ks):
    num, den = ZERO, ZERO
    for k in ks:
        a = m['areas'].a[k]
        q = g_mul(half(m['rho']), dot(m['wind'].a[k], m['wind'].a[k]))
        c = g_div(norm(F[k]), g_mul(q, a))
        num, den = g_add(num, g_mul(c, a)), g_add(den, a)
    return g_div(num, den)


def section_coefficients(ctx):
    for nc, ns, S in grids(ctx):
        K = 2 * nc * ns * S
        I = ctx.interp()
        m = model(K)
        r = ctx.call(I, C + 'get_C', m['panels'], m['areas'], m['force'], m['wind'], ns, nc, m['rho'])
        loc = ctx.anchorloc(C + 'get_C')
        inst = '%dx%d panels, %d sail%s' % (nc, ns, S, 's' if S > 1 else '')
        want = np.array([[section(m, m['force'].a, ks) for ks in strips(s, nc, ns)] for s in range(S)], dtype=object)
        ctx.eq('section-coefficient', inst, r, want.reshape(S, ns), True, loc, I, 'section coefficient')
        ctx.no_raise('section-coefficient', inst + ', total', I)


def curves(ctx):
    for nc, ns, S in grids(ctx, small=False):
        K = 2 * nc * ns * S
        I = ctx.interp()
        m = model(K)
        vc = ctx.get(I, 'solver.vlm.Vlm')
        ic = OpaqueInst('inlet conditions', dict(V_app_infs=m['wind'], cp_points=m['cp'], rho=m['rho']), None)
        o = OpaqueInst('solution', dict(panels=m['panels'], areas=m['areas'], lift=m['lift'], drag=m['drag'], force=m['force'], cp=m['cp'],
                                        inlet_conditions=ic, n_spanwise=ns, n_chordwise=nc, rho=m['rho']), vc)
        solver = OpaqueInst('solver', dict(n_spanwise=ns, n_chordwise=nc), None)
        r = ctx.call(I, C + 'get_data_for_coeff_plot', o, solver)
        loc = ctx.anchorloc(C + 'get_data_for_coeff_plot')
        inst = '%dx%d panels, %d sail%s' % (nc, ns, S, 's' if S > 1 else '')
        ctx.no_raise('curve-data', inst + ', total', I)
        if not (isinstance(r, tuple) and len(r) == 3):
            ctx.fact('curve-data', inst, None, 'not a triple', loc)
            continue
        hs = [[g_div(gsum(m['cp'].a[k][2] for k in ks), P(nc)) for ks in strips(s, nc, ns)] for s in range(S)]
        ctx.eq('strip-height', inst, r[0], np.array(hs, dtype=object).reshape(S, ns), True, loc, I, 'strip height')
        for name, F, got in (('lift', m['lift'].a, r[1]), ('drag', m['drag'].a, r[2])):
            want = []
            for s in range(S):
                st = strips(s, nc, ns)
                c = [section(m, F, ks) for ks in st]
                a = [gsum(m['areas'].a[k] for k in ks) for ks in st]
                mean = g_div(gsum(g_mul(x, y) for x, y in zip(c, a)), gsum(a))
                want.append([g_div(x, mean) for x in c])
            ctx.eq(name + '-curve', inst, got, np.array(want, dtype=object).reshape(S, ns), True, loc, I, name + ' curve')


STEPS = [section_coefficients, curves]
