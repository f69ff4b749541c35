import numpy as np
import math
def pos(x, c):
    k = 0
    for v in x:
        if v > c:
            k += 1
    return k
def c1(x, s): return np.zeros(pos(x, s))
def c2(x, s): return np.arange(pos(x, s))
def c3(x, s): return [1.] * pos(x, s)
def c4(x, s): return np.linspace(0, 1, pos(x, s) + 1)
def c5(x, s): return np.full((pos(x, s), 2), s)
def c6(x, s): return np.repeat(s, pos(x, s))
def c7(x, s): return x[:pos(x, s)]
def c8(x, s): return x[pos(x, s) - 1]
def c9(x, s): return x[-pos(x, s):]
def c10(x, s): return np.split(x, [pos(x, s)])
def c11(x, s): return np.roll(x, pos(x, s))
def c12(x, s): return [v for v in x if v > s]
def c13(x, s): return sum(v for v in x if v > s)
def c14(x, s): return x[x > s].sum()
def c15(x, s): return len([v for v in x if v > s])
def c16(x, s): return np.count_nonzero(x > s)
def c17(x, s): return [i for i, v in enumerate(x) if v > s]
def c18(x, s): return x[[i for i, v in enumerate(x) if v > s]]
def c19(x, s):
    out = []
    for v in x:
        if v > s: out.append(v)
        else: out.insert(0, -v)
    return out
def c20(x, s):
    i = 0
    while i < len(x) and x[i] <= s: i += 1
    return i
def c21(x, s):
    for i, v in enumerate(x):
        if v > s: break
    else:
        i = -1
    return (i, v)
def c22(x, s): return np.where(x > s, x, 0.).sum()
def c23(x, s):
    r = x.copy(); r[r > s] = s; return r
def c24(x, s):
    r = x.copy(); r[r > s] -= s; r[~(r > s)] += 1; return r
def c25(F, s):
    r = F.copy(); up = r[:, 2] > s; r[up, 2] -= s; r[~up, 2] += s; return r
def c26(F, s):
    r = F.copy(); up = r[:, 2] > s; r[up] *= 2; return r
def c27(F, s): return F[F[:, 2] > s].sum(axis=0)
def c28(F, s): return F[F[:, 2] > s]
def c29(F, s): return np.where((F[:, 2] > s)[:, None], F, -F)
def c30(x): return x[np.argsort(x)]
def c31(x): return np.argsort(x)
def c32(x): return sorted(x)
def c33(x): return sorted(x, reverse=True)
def c34(x): return sorted(range(len(x)), key=lambda i: x[i])
def c35(x): return max(range(len(x)), key=lambda i: x[i])
def c36(x): return x.argmax()
def c37(x, y): return y[x.argmax()]
def c38(x, y): return y[np.argmin(x):]
def c39(F): return F[F[:, 2].argmax()]
def c40(x, s): return np.searchsorted(np.sort(x), s)
def c41(x): return np.max(x) - np.min(x)
def c42(x, s): return [x[i] if x[i] > s else None for i in range(3)]
def c43(x, s): return {i: v for i, v in enumerate(x) if v > s}
def c44(x, s): return any(v > s for v in x)
def c45(x, s): return all(v > s for v in x)
def c46(x, s): return next((v for v in x if v > s), None)
def c47(x, s): return next(i for i, v in enumerate(list(x) + [2.]) if v > s)
def c48(x, s): return list(filter(lambda v: v > s, x))
def c49(x, s):
    a, b = [], []
    for v in x: (a if v > s else b).append(v)
    return a, b
def c50(x, s): return ('hi' if x[0] > s else 'lo') + 'x'
def c51(x, s): return {'hi': 1, 'lo': 2}['hi' if x[0] > s else 'lo']
def c52(x, s):
    d = {}
    for v in x: d.setdefault(bool(v > s), []).append(v)
    return [d.get(True, []), d.get(False, [])]
def c53(x, s):
    try:
        if x[0] > s: raise ValueError('a')
        return 1
    except ValueError:
        return 2
def c54(x, s):
    r = 0.
    for v in x:
        if v > s: continue
        r += v
    return r
def c55(x, s):
    def f(v):
        if v > s: return v * 2
        if v > s / 2: return v * 3
        return v
    return [f(v) for v in x]
def c56(x, s):
    f = np.vectorize(lambda v: v if v > s else -v)
    return f(x)
def c57(x, s): return np.piecewise(x, [x < s, x >= s], [lambda v: -v, lambda v: v * 2])
def c58(x, s): return np.select([x > s, x > s / 2], [x, 2 * x], default=0.)
def c59(x, s): return np.clip(x, s / 2, s)
def c60(x, s): return np.heaviside(x - s, 0.5)
def c61(x, s): return np.sign(x - s) * np.abs(x - s)
def c62(x, s): return np.maximum(x, s) + np.minimum(x, s)
def c63(x, s): return np.maximum.accumulate(x)
def c64(x, s): return np.compress(x > s, x)
def c65(x, s): return np.extract(x > s, x)
def c66(x, s): return np.flatnonzero(x > s)
def c67(x, s): return np.nonzero(x > s)[0]
def c68(x, s): return np.where(x > s)[0]
def c69(x, s): return np.any(x > s) and not np.all(x > s)
def c70(x, s): return (x > s).astype(float)
def c71(x, s): return (x > s) * 1.0
def c72(x, s): return x * (x > s)
def c73(x, s): return (x > s).sum()
def c74(x, s): return np.mean(x > s)
def c75(x, s): return np.copysign(s, x - s)
def c76(x, s): return np.choose((x > s).astype(int), [x, -x])
def c77(F, s): return np.array([f * 2 if f[2] > s else f for f in F])
def c78(F, s): return np.array([(f if f[2] > s else -f) for f in F]).T
def c79(F, s): return np.vstack([f for f in F if f[2] > s])
def c80(F, s): return sum([f for f in F if f[2] > s], np.zeros(3))
def c81(F, s):
    groups = [[], []]
    for f in F: groups[int(f[2] > s)].append(f[0])
    return groups
def c82(F, s):
    idx = [i for i in range(len(F)) if F[i, 2] > s]
    return F[idx, 0]
def c83(F, s):
    r = np.zeros(6); r[F[:, 2] > s] = 1; return r
def c84(F, s):
    r = np.zeros(6)
    r[F[:, 2] > s] = F[F[:, 2] > s, 0]
    return r
def c85(F, s):
    mask = np.array([f[2] > s for f in F]); return F[mask].shape[0]
def c86(F, s):
    mask = [bool(f[2] > s) for f in F]; return F[mask, 1]
def c87(F, s):
    above, below = F[F[:, 2] > s], F[F[:, 2] <= s]
    return np.concatenate([above, below])
def c88(F, s):
    order = np.argsort(F[:, 2]); return F[order]
def c89(F, s):
    return F[np.lexsort((F[:, 0], F[:, 2]))]
def c90(F, s):
    return sorted(F[:3].tolist(), key=lambda r: r[2])
def c91(x, s):
    k = int(x[0] > s); return x[k:k + 2]
def c92(x, s):
    k = 1 + (x[0] > s); return x.reshape(5)[::k]
def c93(x, s):
    k = 2 if x[0] > s else 3; return np.array_split(x, k)
def c94(T, s):
    k = 0 if T[0, 0, 0] > s else 1; return T.sum(axis=k)
def c95(T, s):
    k = 0 if T[0, 0, 0] > s else 1; return np.concatenate([T, T], axis=k).shape
def c96(T, s):
    k = 2 if T[0, 0, 0] > s else -1; return np.cross(T[:, :, :3], T[:, :, 1:], axis=k)
def c97(x, s):
    k = 1 if x[0] > s else 2; return x ** k
def c98(x, s):
    k = 1 if x[0] > s else 2; return 'a%d' % k
def c99(x, s):
    k = 1 if x[0] > s else 2; return f'{k}'
