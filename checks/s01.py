"""S01: spectral depth integrals against composite Gauss quadrature; three implementations."""
from harness import *
import fort
import geotecha.speccon.integrals as sp
from geotecha.piecewise.piecewise_linear_1d import PolyLine

CHECK = Check('S01', rule='a property varies within a layer or jumps between layers', setup=fort.speccon,
              assumptions=['layers are at least 0.01 of the depth thick', 'closed forms are compared to 1e-8 of the size of the integrand'])
IMPL = ('scalar', 'vectorized', 'fortran')
XG, WG = np.polynomial.legendre.leggauss(16)


class Prof(object):
    """layers [zt, zb] with properties linear inside"""
    def __init__(self, z, cols, m):
        self.zt, self.zb = np.array(z[:-1], float), np.array(z[1:], float)
        self.c = cols
        pts, w, lay = [], [], []
        for i, (a, b) in enumerate(zip(self.zt, self.zb)):
            n = int(max(m) * (b - a) / 3) + 1
            e = np.linspace(a, b, n + 1)
            for p, q in zip(e[:-1], e[1:]):
                pts.append((p + q) / 2 + (q - p) / 2 * XG)
                w.append((q - p) / 2 * WG)
                lay.append(np.full(16, i))
        self.z, self.w, self.lay = map(np.concatenate, (pts, w, lay))

    def val(self, k):
        t, b = self.c[k]
        f = (self.z - self.zt[self.lay]) / (self.zb - self.zt)[self.lay]
        return t[self.lay] + (b - t)[self.lay] * f

    def slope(self, k):
        t, b = self.c[k]
        return ((b - t) / (self.zb - self.zt))[self.lay]


def build(c):
    m = np.array([sp.m_from_sin_mx(i, c['drn']) for i in range(c['neig'])])
    cuts = sorted(set(c['cuts']))
    z = [0.] + [v / 100. for v in cuts] + [1.]
    n = len(z) - 1
    cols = []
    for k in range(3):
        t, b = [], []
        for i in range(n):
            p, q, kind = c['vals'][(3 * i + k) % len(c['vals'])]
            t.append(b[-1] if (kind == 2 and b) else p)
            b.append(t[-1] if kind == 0 else q)
        cols.append((np.array(t, float), np.array(b, float)))
    return m, z, cols, Prof(z, cols, m)


val = st.tuples(num(-2, 4, 12, 6000), num(-2, 4, 12, 6000), st.integers(0, 3))
layered = rec(drn=st.integers(0, 1), neig=st.integers(1, 12), cuts=st.lists(st.integers(1, 99), max_size=5), vals=st.lists(val, min_size=6, max_size=18))


def varies(cols):
    return any(np.ptp(np.concatenate(v)) > 0 for v in cols)


def tri(name, fn, args, want, scale, ptol=1e-8):
    for impl in IMPL:
        got = np.asarray(fn(*args, implementation=impl))
        close(got, want, ptol, 0, '%s (%s)' % (name, impl), scale=scale)
    close(np.asarray(fn(*args)), want, ptol, 0, '%s (default)' % name, scale=scale)


@CHECK.test(rec(c=layered, which=st.integers(0, 6), poly=st.booleans()), quick=1500, thorough=60000)
def matrices(c):
    m, z, cols, P = build(c['c'])
    (at, ab), (bt, bb), (ct, cb) = cols
    zt, zb = P.zt, P.zb
    S = np.sin(np.outer(P.z, m))
    C = np.cos(np.outer(P.z, m))
    A, B, D = P.val(0), P.val(1), P.val(2)
    db = P.slope(1)
    sc = [max(1e-3, np.abs(np.concatenate(v)).max()) for v in cols]
    pl = [PolyLine(zt, zb, t, b) for t, b in cols]
    which = c['which']
    # thin layers with different end values give large slopes: the closed forms lose that many digits
    hmin = (zb - zt).min()
    loss = 1 / hmin
    if which == 0:
        want = (S * (P.w * A)[:, None]).T @ S
        name, fn, args, pf, pa, scale = 'af', sp.dim1sin_af_linear, (m, at, ab, zt, zb), sp.pdim1sin_af_linear, (m, pl[0]), sc[0] * loss
    elif which == 1:
        want = (S * (P.w * A * B)[:, None]).T @ S
        name, fn, args, pf, pa, scale = 'abf', sp.dim1sin_abf_linear, (m, at, ab, bt, bb, zt, zb), sp.pdim1sin_abf_linear, (m, pl[0], pl[1]), sc[0] * sc[1] * loss**2
    elif which == 2:
        want = -(C * m * (P.w * A)[:, None]).T @ (C * m)
        name, fn, args, pf, pa, scale = 'D_aDf', sp.dim1sin_D_aDf_linear, (m, at, ab, zt, zb), sp.pdim1sin_D_aDf_linear, (m, pl[0]), sc[0] * np.outer(m, m) * loss
    elif which == 3:
        want = S.T @ (P.w * A * B)
        name, fn, args, pf, pa, scale = 'ab', sp.dim1sin_ab_linear, (m, at, ab, bt, bb, zt, zb), sp.pdim1sin_ab_linear, (m, pl[0], pl[1]), sc[0] * sc[1] * loss**2
    elif which == 4:
        want = S.T @ (P.w * A * B * D)
        name, fn, args, pf, pa, scale = 'abc', sp.dim1sin_abc_linear, (m, at, ab, bt, bb, ct, cb, zt, zb), sp.pdim1sin_abc_linear, (m, pl[0], pl[1], pl[2]), sc[0] * sc[1] * sc[2] * loss**3
    elif which == 5:
        # integral of sin*(a*b')' : end terms minus the integral of m*cos*a*b'
        sl = (bb - bt) / (zb - zt)
        want = np.sin(m * zb[-1]) * ab[-1] * sl[-1] - np.sin(m * zt[0]) * at[0] * sl[0] - (C * m).T @ (P.w * A * db)
        name, fn, args, pf, pa, scale = 'D_aDb', sp.dim1sin_D_aDb_linear, (m, at, ab, bt, bb, zt, zb), sp.pdim1sin_D_aDb_linear, (m, pl[0], pl[1]), sc[0] * sc[1] * m * loss**2
    else:
        m2 = m**2
        want = (S * m2 * (P.w * A * B)[:, None]).T @ (S * m2)
        name, fn, args, pf, pa, scale = 'DD_abDDf', sp.dim1sin_DD_abDDf_linear, (m, at, ab, bt, bb, zt, zb), sp.pdim1sin_DD_abDDf_linear, (m, pl[0], pl[1]), sc[0] * sc[1] * np.outer(m2, m2) * loss**2
    label(name)
    tol = 1e-10
    tri(name, fn, args, want, scale, tol)
    if c['poly']:
        # the PolyLine versions: merging of points closer than 1e-5 is not triggered by this generator
        close(np.asarray(pf(*pa)), want, tol, 0, 'p%s' % name, scale=scale)
    return varies(cols)


prof = rec(cuts=st.lists(st.integers(1, 99), max_size=3), vals=st.lists(st.tuples(num(-2, 3, 10, 500), num(-2, 3, 10, 500)), min_size=4, max_size=4))


@CHECK.test(rec(a=prof, b=prof, d=prof, drn=st.integers(0, 1), neig=st.integers(1, 8), which=st.integers(0, 4)), quick=700, thorough=30000)
def polylines_on_different_grids(c):
    """profiles given on different layer boundaries are combined before integrating"""
    m = np.array([sp.m_from_sin_mx(i, c['drn']) for i in range(c['neig'])])
    pls, grids = [], []
    for k in 'abd':
        z = [0.] + [v / 100. for v in sorted(set(c[k]['cuts']))] + [1.]
        v = c[k]['vals'][:len(z) - 1]
        pls.append(PolyLine(z[:-1], z[1:], [t for t, _ in v], [b for _, b in v]))
        grids.append((np.array(z), np.array(v, float)))
    zz = np.array(sorted(set(float(v) for g, _ in grids for v in g)))

    def ends(g, v):
        i = np.clip(np.searchsorted(g, (zz[:-1] + zz[1:]) / 2) - 1, 0, len(v) - 1)
        f = lambda z: v[i, 0] + (v[i, 1] - v[i, 0]) * (z - g[i]) / (g[i + 1] - g[i])
        return f(zz[:-1]), f(zz[1:])
    cols = [ends(g, v) for g, v in grids]
    P = Prof(zz, cols, m)
    S, C = np.sin(np.outer(P.z, m)), np.cos(np.outer(P.z, m))
    A, B, D = P.val(0), P.val(1), P.val(2)
    w = c['which']
    scale = 30. * 100**2 * m.max() ** (4 if w == 3 else 1)
    if w == 0:
        got, want = sp.pdim1sin_abf_linear(m, pls[0], pls[1]), (S * (P.w * A * B)[:, None]).T @ S
    elif w == 1:
        got, want = sp.pdim1sin_ab_linear(m, pls[0], pls[1]), S.T @ (P.w * A * B)
    elif w == 2:
        got, want = sp.pdim1sin_abc_linear(m, *pls), S.T @ (P.w * A * B * D)
    elif w == 3:
        got, want = sp.pdim1sin_DD_abDDf_linear(m, pls[0], pls[1]), (S * m**2 * (P.w * A * B)[:, None]).T @ (S * m**2)
    else:
        sl = (cols[1][1] - cols[1][0]) / np.diff(zz)
        got = sp.pdim1sin_D_aDb_linear(m, pls[0], pls[1])
        want = np.sin(m) * cols[0][1][-1] * sl[-1] - (C * m).T @ (P.w * A * P.slope(1))
    close(np.asarray(got), want, 1e-11, 0, 'combined profiles, case %d' % w, scale=scale)
    return len(set(map(str, [list(g) for g, _ in grids]))) > 1


@CHECK.test(rec(c=layered, z=st.lists(st.tuples(st.integers(0, 1000), st.integers(0, 1000)), min_size=1, max_size=6), node=st.booleans()), quick=700, thorough=30000)
def between_depths(c):
    m, z, cols, P = build(c['c'])
    at, ab = cols[0]
    zz = []
    for i, (a, b) in enumerate(c['z']):
        a, b = sorted((a / 1000., b / 1000.))
        if c['node'] and i % 2 == 0:
            a = max(v for v in z if v <= a)
        if c['node'] and i % 3 == 0:
            b = min(v for v in z if v >= b)
        if b - a > 1e-3:
            zz.append((a, b))
    if not zz:
        return False
    want, avg = [], []
    for a, b in zz:
        r, s = 0, 0
        for i, (t, e) in enumerate(zip(P.zt, P.zb)):
            lo, hi = max(a, t), min(b, e)
            if hi <= lo:
                continue
            for p, q in zip(*(lambda g: (g[:-1], g[1:]))(np.linspace(lo, hi, int(m.max() * (hi - lo) / 3) + 2))):
                x = (p + q) / 2 + (q - p) / 2 * XG
                sn = np.sin(np.outer(x, m))
                w = (q - p) / 2 * WG
                r = r + sn.T @ (w * (at[i] + (ab[i] - at[i]) * (x - t) / (e - t)))
                s = s + sn.T @ w
        want.append(r)
        avg.append(s / (b - a))
    want = np.array(want)
    scale = np.abs(np.concatenate(cols[0])).max() + 1e-3
    got = sp.dim1sin_a_linear_between(m, at, ab, P.zt, P.zb, np.array(zz))
    close(got, want, 1e-10, 0, 'dim1sin_a_linear_between', scale=100 * scale)
    p = PolyLine(P.zt, P.zb, at, ab)
    if len(p.x) == len(P.zt) + 1 or True:
        close(sp.pdim1sin_a_linear_between(m, p, np.array(zz)), want, 1e-10, 0, 'pdim1sin_a_linear_between', scale=100 * scale)
    close(sp.dim1sin_avg_between(m, np.array(zz)), np.array(avg), 1e-9, 0, 'dim1sin_avg_between', scale=10.)
    x = np.array([a for a, _ in zz])
    close(sp.dim1sin(m, x), np.sin(np.outer(x, m)), 1e-12, 1e-12, 'dim1sin')
    # one interval given as a flat pair
    close(sp.dim1sin_a_linear_between(m, at, ab, P.zt, P.zb, list(zz[0])), want[:1], 1e-10, 0, 'single interval', scale=100 * scale)
    return varies(cols[:1])


@CHECK.test(rec(i=st.integers(0, 60), b=st.integers(-1, 3)), quick=60, thorough=500, shards=1)
def eigenvalues(c):
    i, b = c['i'], c['b']
    if b not in (0, 1):
        raises(ValueError, lambda: sp.m_from_sin_mx(i, b), 'bad boundary')
        return False
    m = sp.m_from_sin_mx(i, b)
    want = math.pi * (i + 1) if b == 0 else math.pi * (i + 0.5)
    close(m, want, 1e-14, 0, 'eigenvalue')
    close(sp.m_from_sin_mx(np.arange(i + 1), b)[-1], want, 1e-14, 0, 'eigenvalue array')
    return True
