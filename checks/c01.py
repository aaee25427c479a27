"""C01: Terzaghi consolidation against an image (error function) solution."""
from harness import *
from scipy.special import erfc, erf
import geotecha.consolidation.terzahi as T

CHECK = Check('C01', quick_scale=3, rule='the truncated series is converged (omitted terms < 1e-6) at a point inside the layer with 0.01 < u/ui < 0.99',
              assumptions=['differences up to the sum of the omitted series terms are allowed'])


def ierfc(x):
    return np.exp(-x * x) / math.sqrt(math.pi) - x * erfc(x)


def ref_u(Z, Tv):
    """u/ui: half space drained at Z=0 and Z=2, images"""
    if Tv <= 0:
        return np.where((Z > 0) & (Z < 2), 1., 0.)
    d = 2 * math.sqrt(Tv)
    K = int(3 + 4 * d)
    u = np.zeros_like(Z)
    # odd periodic extension (period 4, +1 on (0,2), -1 on (-2,0)) convolved with the heat kernel
    for k in range(-K, K + 1):
        a, b = 4 * k, 4 * k + 2
        u += 0.5 * (erf((Z - a) / d) - erf((Z - b) / d))
        u -= 0.5 * (erf((Z - a + 2) / d) - erf((Z - a) / d))
    return u


def ref_flux(Z, Tv):
    d = 2 * math.sqrt(Tv)
    K = int(3 + 4 * d)
    g = lambda x: np.exp(-(x / d)**2) / (math.sqrt(math.pi) * d)
    f = np.zeros_like(Z)
    for k in range(-K, K + 1):
        f += 2 * g(Z - 4 * k) - g(Z - 4 * k - 2) - g(Z - 4 * k + 2)
    return f


def ref_doc(Tv):
    if Tv <= 0:
        return 0.
    if Tv > 0.5:
        m = (2 * np.arange(40) + 1) / 2 * math.pi
        return 1 - np.sum(2 / m**2 * np.exp(-m * m * Tv))
    d = math.sqrt(Tv)
    s = 1 / math.sqrt(math.pi)
    for k in range(1, 12):
        s += 2 * (-1)**k * ierfc(k / d)
    return 2 * d * s


def tails(n, Tv):
    """bounds on the omitted terms of u, flux and degree of consolidation"""
    m = (2 * np.arange(n, n + 20000) + 1) / 2 * math.pi
    e = np.exp(-m * m * Tv)
    more = 1. if e[-1] > 1e-14 else 0.
    return np.sum(2 / m * e) + more, np.sum(2 * e) + more * 1e9, np.sum(2 / m**2 * e) + more * 2e-5


pos = logu(0.05, 20)
CASE = rec(Z=st.lists(num(0, 1), min_size=1, max_size=5), Tv=st.lists(st.one_of(logu(1e-5, 3), st.just(0.)), min_size=1, max_size=5), H=pos, kv=logu(1e-4, 10), mv=pos, gamw=st.sampled_from([10., 9.81, 1.]),
           ui=st.one_of(logu(0.1, 100), st.just(-2.)), nterms=st.one_of(st.none(), st.integers(1, 300)), zs=st.booleans(), ts=st.booleans())


def args(c):
    Z, Tv = np.array(c['Z']), np.array(c['Tv'])
    if c['zs']:
        Z = Z[:1]
    if c['ts']:
        Tv = Tv[:1]
    kw = dict(H=c['H'], kv=c['kv'], mv=c['mv'], gamw=c['gamw'], ui=c['ui'])
    if c['nterms']:
        kw['nterms'] = c['nterms']
    t = Tv * c['H']**2 * c['mv'] * c['gamw'] / c['kv']
    z = Z * c['H']
    return Z, Tv, (float(z[0]) if c['zs'] else z), (float(t[0]) if c['ts'] else t), kw


@CHECK.test(CASE, quick=1500, thorough=40000)
def pore_pressure(c):
    Z, Tv, z, t, kw = args(c)
    s = snapshot(z, t)
    por, doc = T.terzaghi_1d(z, t, **kw)
    same_snapshot(s, z, t)
    por, doc = np.asarray(por), np.asarray(doc)
    require(por.shape == (len(Z), len(Tv)), 'shape of por %s' % (por.shape,))
    require(doc.shape == (len(Tv),), 'shape of doc %s' % (doc.shape,))
    nt = False
    for j, tv in enumerate(Tv):
        a, b, d = tails(c['nterms'] or 100, tv)
        u = ref_u(Z, tv)
        close(por[:, j], c['ui'] * u, 0, abs(c['ui']) * (1e-9 + a), 'pore pressure at Tv=%g' % tv)
        close(doc[j], ref_doc(tv), 0, 1e-9 + d, 'degree of consolidation at Tv=%g' % tv)
        nt |= bool(a < 1e-6 and ((u > 0.01) & (u < 0.99)).any())
    return nt


@CHECK.test(CASE, quick=1500, thorough=40000)
def flow_rate(c):
    Z, Tv, z, t, kw = args(c)
    q = np.asarray(T.terzaghi_1d_flowrate(z, t, **kw))
    require(q.shape == (len(Z), len(Tv)), 'shape of flow rate %s' % (q.shape,))
    nt = False
    for j, tv in enumerate(Tv):
        if tv <= 0:
            continue
        b = tails(c['nterms'] or 100, tv)[1]
        f = ref_flux(Z, tv)
        sc = abs(c['kv'] / c['gamw'] * c['ui'] / c['H'])
        close(q[:, j], c['kv'] / c['gamw'] * c['ui'] / c['H'] * f, 1e-9, sc * (1e-9 + b), 'flow rate at Tv=%g' % tv)
        nt |= bool(b < 1e-6 and (f > 1e-3).any())
    return nt


@CHECK.test(rec(Tv=logu(0.01, 2), H=pos, kv=logu(1e-4, 10), mv=pos, gamw=st.sampled_from([10., 9.81]), ui=logu(0.1, 100), f=num(0, 1)), quick=300, thorough=5000)
def balance(c):
    """water leaving through a depth = loss of pressure below it; average of the pressures = 1 - doc"""
    H, ui = c['H'], c['ui']
    T1 = H * H * c['mv'] * c['gamw'] / c['kv']
    kw = dict(H=H, kv=c['kv'], mv=c['mv'], gamw=c['gamw'], ui=ui)
    g, w = np.polynomial.legendre.leggauss(60)
    z0 = c['f'] * H
    zz = z0 + (H - z0) * (g + 1) / 2
    ta, tb = 0.5 * c['Tv'] * T1, c['Tv'] * T1
    ua, ub = [np.sum(T.terzaghi_1d(zz, t, **kw)[0][:, 0] * w) / 2 * (H - z0) for t in (ta, tb)]
    tt = ta + (tb - ta) * (g + 1) / 2
    q = np.sum(T.terzaghi_1d_flowrate(z0, tt, **kw)[0] * w) / 2 * (tb - ta)
    close(q, c['mv'] * (ua - ub), 1e-7, 1e-7 * ui * c['mv'] * H, 'outflow against loss of pore pressure')
    z = H * (g + 1) / 2
    por, doc = T.terzaghi_1d(z, tb, **kw)
    close(1 - np.sum(por[:, 0] * w) / 2 / ui, doc[0], 1e-8, 1e-8, 'degree of consolidation against average of the pressures')
    return c['f'] < 1
