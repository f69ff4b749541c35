"""Symbolic model instances shared by several properties."""
from sa.kit import *


def grids(ctx, small=False):
    """(chordwise, spanwise, sails): every combination of one / several in each dimension, and rectangular ones"""
    g = [(1, 1, 1), (1, 2, 1), (2, 1, 1), (2, 2, 2), (3, 2, 1), (2, 3, 1), (1, 2, 2), (3, 1, 2)]
    if small:
        g = [(1, 1, 1), (2, 2, 1), (1, 3, 2), (3, 2, 2)]
    if ctx.thorough:
        g = g + [(3, 3, 1), (4, 2, 1), (2, 4, 2), (1, 5, 1), (5, 1, 1), (3, 3, 2)]
    return g


def flags(nc, ns, S):
    te, le = [], []
    for h in range(2 * S):
        for i in range(nc):
            for j in range(ns):
                te.append(i == nc - 1)
                le.append(i == 0 and nc > 1)
    return te, le


def sail_panels(K, name='P'):
    """K panels in general position, the first half above the water, the second below"""
    a = np.empty((K, 4, 3), dtype=object)
    for k in range(K):
        for c in range(4):
            for x in range(3):
                s = None if x < 2 else ('+' if k < K // 2 else '-')
                a[k, c, x] = sc('%s%d.%d%s' % (name, k, c + 1, 'xyz'[x]), sign=s)
    return Arr(a, 'f')


def exp_wind(ctx, I, cls='ExpWindProfile'):
    alpha, tws, sog = sc('alpha_deg', rng=(10, 170)), sc('tws', '+'), sc('SOG', '+')
    if cls == 'FlatWindProfile':
        return ctx.call(I, 'inlet.winds.FlatWindProfile', alpha, tws, sog)
    if cls == 'LogWindProfile':
        z0 = sc('z0', '+', rng=(0.001, 0.01))
        return ctx.call(I, 'inlet.winds.LogWindProfile', alpha, tws, sog, roughness=z0, reference_measurment_height=sc('href', '+', rng=(5, 12)))
    return ctx.call(I, 'inlet.winds.ExpWindProfile', alpha, tws, sog, exp_coeff=sc('wexp', '+', rng=(0.05, 0.5)),
                    reference_measurment_height=sc('href', '+', rng=(5, 12)),
                    reference_water_level_for_wind_profile=g_neg(sc('wl', '0+')))


class Model:
    pass


def make_vlm(ctx, nc, ns, S, cuts=None, wind='ExpWindProfile', panels=None, rho=None):
    m = Model()
    m.I = I = ctx.interp(dict(CUTS_VORTEX, **CUTS_LET) if cuts is None else cuts)
    m.K = K = nc * ns * S * 2
    m.nc, m.ns, m.S = nc, ns, S
    m.panels = panels if panels is not None else sail_panels(K)
    m.te, m.le = flags(nc, ns, S)
    m.rho = rho if rho is not None else sc('rho', '+')
    m.wind = exp_wind(ctx, I, wind) if isinstance(wind, str) else wind
    m.te_arr, m.le_arr = barr(m.te), barr(m.le)
    m.vlm = ctx.call(I, 'solver.vlm.Vlm', m.panels, nc, ns, m.rho, m.wind, m.te_arr, m.le_arr)
    m.pc = I.pc
    m.raises = list(I.raises[0])
    m.name = '%dx%d panels, %d sail%s' % (nc, ns, S, 's' if S > 1 else '')
    return m


def at(ctx, m, name):
    """attribute of the solution, on the paths where it was produced at all"""
    v = ctx.attr(m.I, m.vlm, name)
    if isinstance(v, DD):
        v = restrict(v, m.pc) if m.pc is not True else v
    return m.I.simp(v) if isinstance(v, DD) else v


def mat(v):
    return npa(v)


# ---- tables
def one_df(ctx, rule, inst, d, loc):
    """a plain table value or None (recorded as undecided)"""
    if isinstance(d, ExtObj) and d.kind == 'df':
        return d
    if isinstance(d, DD):
        ls = [l for l in leaves(d) if l is not BOT and l is not UNSET]
        if len(ls) == 1 and isinstance(ls[0], ExtObj) and ls[0].kind == 'df':
            return ls[0]
    ctx.add(rule, inst, 'unknown', 'not a table: %s' % (d,), loc)
    return None


def col(d, label):
    """values of a column, None when there is none (or more than one) of that label"""
    hit = [c[1] for c in d.data['cols'] if c[0] == label]
    return hit[0] if len(hit) == 1 else None


def labels(d):
    return [c[0] for c in d.data['cols']]


def quantity(d, label):
    """value of a row of a Quantity / Value table"""
    q, v = col(d, 'Quantity'), col(d, 'Value')
    if q is None or v is None:
        return None
    hit = [b for a, b in zip(q, v) if a == label]
    return hit[0] if len(hit) == 1 else None


def want_col(ctx, rule, inst, d, label, want, loc, I):
    v = col(d, label)
    if v is None:
        ctx.fact(rule, '%s: %s' % (inst, label), False, 'has no single column %s' % label, loc)
        return
    ctx.eq(rule, '%s: %s' % (inst, label), PyList(list(v)), np.array(list(want) + [None], dtype=object)[:-1], True, loc, I, label)


def want_quantity(ctx, rule, inst, d, label, want, loc, I):
    v = quantity(d, label)
    if v is None:
        ctx.fact(rule, '%s: %s' % (inst, label), False, 'has no single row %s' % label, loc)
        return
    ctx.eq(rule, '%s: %s' % (inst, label), v, want, True, loc, I, label)
