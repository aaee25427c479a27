"""K05: soil-water characteristic curves against the documented formulas, slopes and integrals."""
from harness import *
import cmath
from scipy.integrate import quad
import geotecha.constitutive_models.swcc as W

CHECK = Check('K05', rule='calculated (not manual) correction factor or several suctions of different decades',
              assumptions=['Pham and Fredlund curves fall monotonically where wsat - s1*log10(psi) stays above wr', 'the reference water content of the permeability integral is ws (Fredlund and Xing) or the water content at aev (Pham and Fredlund)',
                           'permeability is asked for suctions from aev to 1e6'])

FX = rec(kind=st.just('fx'), a=logu(.5, 2e4), n=logu(.4, 10), m=logu(.2, 3), ws=maybe(num(.1, 60)), psir=maybe(logu(10, 1e5)), corr=maybe(num(.3, 1)))
PF = rec(kind=st.just('pf'), aroot=logu(2, 5000), b=num(.8, 4), ws=num(.2, .8), wr=num(.02, .6), s1=num(0, 1), psir=maybe(logu(10, 1e5)), corr=maybe(num(.3, 1)))


def build(d):
    kw = {}
    if d['psir'] is not None:
        kw['psir'] = d['psir']
    if d['corr'] is not None:
        kw['correction'] = d['corr']
    if d['kind'] == 'fx':
        if d['ws'] is not None:
            kw['ws'] = d['ws']
        a, n, m, ws, psir = d['a'], d['n'], d['m'], d['ws'] or 1., d['psir'] or 1e6
        o = W.SWCC_FredlundAndXing1994(a, n, m, **kw)

        def shape(x):
            return ws / cmath.log(math.e + (x / a)**n)**m
    else:
        a, b, ws = d['aroot']**d['b'], d['b'], d['ws']
        wr = ws * d['wr']
        s1 = d['s1'] * (ws - wr) / 6.2
        psir = d['psir'] or (2.7 * a)**(1 / b)
        o = W.SWCC_PhamAndFredlund2008(ws, a, b, wr, s1, **kw)

        def shape(x):
            return (ws - s1 * cmath.log(x) / math.log(10) - wr) * a / (x**b + a) + wr

    def w(x):
        C = d['corr'] if d['corr'] is not None else 1 - cmath.log(1 + x / psir) / math.log(1 + 1e6 / psir)
        return C * shape(complex(x))
    return o, w, ws


def slope(w, x):
    h = x * 1e-20
    return w(complex(x, h)).imag / h


PSI = st.lists(logu(.01, 9.9e5), min_size=1, max_size=8)


@CHECK.test(rec(m=st.one_of(FX, PF), psi=PSI, ints=st.booleans()), quick=2500, thorough=60000)
def curve(c):
    """value, slope, monotonic fall, end values; arrays = scalars"""
    o, w, ws = build(c['m'])
    psi = sorted(c['psi'])
    if c['ints']:
        psi = [max(1, int(v)) for v in psi]
    vals = []
    for x in psi:
        a = w(x).real
        close(o.w_from_psi(x), a, 1e-10, 1e-13 * ws, 'water content at suction %r' % x)
        close(o.dw_dpsi(x), slope(w, float(x)), 1e-8, 1e-13 * ws / x, 'slope at suction %r' % x)
        vals.append(a)
    X = np.array(psi)
    snap = snapshot(X)
    close(o.w_from_psi(X), [o.w_from_psi(x) for x in psi], 1e-13, 1e-15 * ws, 'water contents of an array')
    close(o.dw_dpsi(X), [o.dw_dpsi(x) for x in psi], 1e-12, 1e-16 * ws / X, 'slopes of an array')
    same_snapshot(snap, X)
    got = [float(o.w_from_psi(x)) for x in psi]
    require(all(b <= a + 1e-12 * ws for a, b in zip(got, got[1:])), lambda: 'water content rises with suction: %r at %r' % (got, psi))
    require(all(o.dw_dpsi(x) <= 1e-15 * ws / x for x in psi), 'slope is positive')
    if c['m']['corr'] is None:
        close(o.w_from_psi(1e6), 0, 0, 1e-12 * ws, 'water content at 1e6')
    if c['m']['kind'] == 'fx':
        close(o.w_from_psi(0.), ws * (1 if c['m']['corr'] is None else c['m']['corr']), 1e-13, 0, 'saturated water content')
        require(max(got) <= ws * (1 + 1e-12) and min(got) >= 0, 'water content outside 0..ws')
    return c['m']['corr'] is None or psi[-1] > 100 * psi[0]


@CHECK.test(rec(m=st.one_of(FX, PF), psi=st.lists(num(0, 1), min_size=1, max_size=4), aev=maybe(logu(1e-3, 10)), npts=maybe(st.integers(100, 3000)), shape=st.sampled_from(['scalar', 'one', 'array'])), quick=500, thorough=10000)
def permeability(c):
    """ratio of the documented integrals: the documented midpoint sums, their limit, bounds and order"""
    d = c['m']
    o, w, ws = build(d)
    aev = c['aev'] or (1. if d['kind'] == 'fx' else 1e-3)
    kw = {}
    if c['aev']:
        kw['aev'] = aev
    if c['npts']:
        kw['npts'] = c['npts']
    N = c['npts'] or 500
    lo, b = math.log(aev), math.log(1e6)
    psi = sorted(math.exp(lo + (b - lo) * .95 * f) for f in c['psi'])
    w0 = ws if d['kind'] == 'fx' else w(aev).real

    def midsum(lower, wref):
        dy = (b - lower) / N
        return dy * sum((w(math.exp(y)).real - wref) * slope(w, math.exp(y)) / math.exp(y) for y in lower + dy * (np.arange(N) + .5))
    if N > 600:
        psi = psi[:1]
    den = midsum(lo, w0)
    if not den > 0:
        return False
    want = [midsum(math.log(x), w(x).real) / den for x in psi]
    if c['shape'] == 'scalar':
        got = [o.k_from_psi(x, **kw) for x in psi]
        require(all(np.ndim(g) == 0 for g in got), 'scalar expected')
    elif c['shape'] == 'one':
        got = [o.k_from_psi(np.array([x]), **kw) for x in psi]
        require(all(np.ndim(g) == 0 for g in got), 'a single element gives a scalar')
    else:
        X = np.array(psi)
        snap = snapshot(X)
        got = np.atleast_1d(o.k_from_psi(X, **kw))
        same_snapshot(snap, X)
    close(got, want, 1e-7, 1e-11, 'relative permeability')
    g = [float(v) for v in got]
    require(all(v >= -1e-12 for v in g), lambda: 'negative permeability %r' % g)
    if d['kind'] == 'fx' and d['corr'] is None or d['kind'] == 'pf':
        # smooth curves: midpoint sums are close to the integrals, hence ordered and not above 1
        steep = (d['n'] * d['m'] if d['kind'] == 'fx' else d['b'])
        h = (b - lo) / N * max(steep, 1)
        if h < .3:
            t = h * h + 1e-9
            require(all(v <= 1 + t for v in g), lambda: 'permeability above one: %r at %r, aev %r' % (g, psi, aev))
            require(all(q <= p * (1 + 2 * t) + 1e-12 for p, q in zip(g, g[1:])), lambda: 'permeability rises with suction %r' % g)
            label('integral limit')
    return len(psi) > 1


@CHECK.test(rec(m=FX, lo=logu(1e-3, .5), npts=st.integers(3, 40), psi=st.lists(num(0, 1), min_size=1, max_size=5), node=st.booleans(), fine=st.booleans()), quick=800, thorough=20000)
def discrete(c):
    """permeability from points of a curve: the documented segment sums; approaches that of the analytic curve"""
    o, w, ws = build(dict(c['m'], corr=None))
    n = c['npts']
    X = np.logspace(math.log10(c['lo']), 6, n)
    Y = np.asarray(o.w_from_psi(X))
    psi = [max(float(X[0]), float(np.exp(math.log(X[0]) + (math.log(X[-1]) - math.log(X[0])) * f * .999))) for f in c['psi']]
    if c['node']:
        psi = [float(X[int(f * (n - 2) + .5)]) for f in c['psi']]
    L = np.log10(X)
    seg = []
    for i in range(n - 1):
        d = L[i + 1] - L[i]
        xm = 10**(L[i] + d / 2)
        seg.append((d, xm, (Y[i] + Y[i + 1]) / 2, (Y[i + 1] - Y[i]) / d / math.log(10) / xm))
    den = sum(d * (y - seg[0][2]) / x * s for d, x, y, s in seg)
    if not den > 1e-12 * ws * ws:
        return False
    snap = snapshot(X, Y)
    want = []
    for p in psi:
        i = max(j for j in range(n - 1) if X[j] <= p)
        want.append(sum(d * (y - seg[i][2]) / x * s for d, x, y, s in seg[i:]) / den)
    got = W.kwrel_from_discrete_swcc(np.array(psi), X, Y)
    close(np.atleast_1d(got), want, 1e-7, 1e-10, 'relative permeability of a discrete curve')
    for p, q in zip(psi, want):
        g = W.kwrel_from_discrete_swcc(p, X, Y)
        require(np.ndim(g) == 0, 'scalar')
        close(g, q, 1e-7, 1e-10, 'relative permeability (scalar)')
    close(W.kwrel_from_discrete_swcc(X[0], X, Y), 1, 1e-12, 0, 'permeability at the first point')
    require(all(-1e-10 <= g <= 1 + 1e-10 for g in np.atleast_1d(got)), 'permeability outside 0..1')
    same_snapshot(snap, X, Y)
    if c['fine'] and c['m']['n'] * c['m']['m'] < 6:
        xf = np.logspace(math.log10(c['lo']), 6, 3000)
        yf = o.w_from_psi(xf)
        p = psi[0]
        if p < 3e5:
            # the permeability at the middle of the segment that contains p
            i = np.searchsorted(xf, p, side='right') - 1
            pm = math.sqrt(xf[i] * xf[i + 1])
            a = W.kwrel_from_discrete_swcc(p, xf, yf)
            b = o.k_from_psi(pm, aev=c['lo'], npts=3000)
            s = o.k_from_psi(c['lo'], aev=c['lo'], npts=3000)   # ws and the water content at lo differ a little
            if b > 1e-9:
                close(a, b / s, .03, 0, 'discrete against analytic curve')
                label('fine discrete curve')
    return len(set(psi)) > 1


@CHECK.test(rec(S=st.lists(num(0, 1), min_size=1, max_size=6), q=maybe(logu(.05, 2))), quick=300, thorough=5000)
def air(c):
    """relative air permeability: formula, 1 when dry, 0 when saturated, falling"""
    S = sorted(c['S'])
    kw = {} if c['q'] is None else dict(qfit=c['q'])
    q = c['q'] or .5
    want = [math.sqrt(1 - s) * (1 - s**(1 / q))**(2 * q) for s in S]
    close(W.karel_air_from_saturation(np.array(S), **kw), want, 1e-12, 1e-14, 'air permeability')
    for s, v in zip(S, want):
        close(W.karel_air_from_saturation(s, **kw), v, 1e-12, 1e-14, 'air permeability (scalar)')
    close([W.karel_air_from_saturation(0., **kw), W.karel_air_from_saturation(1., **kw)], [1, 0], 0, 0, 'ends')
    return c['q'] is not None


@CHECK.test(rec(m=st.one_of(FX, PF), npts=maybe(st.integers(2, 30)), w=maybe(st.tuples(logu(.1, 10), logu(20, 1e6))), draw=st.booleans()), quick=200, thorough=3000)
def plotting_points(c):
    import matplotlib.pyplot as plt
    o, w, ws = build(c['m'])
    kw = {}
    if c['npts']:
        kw['npts'] = c['npts']
    lo, hi = c['w'] or (1., 1e6)
    if c['w']:
        kw.update(xmin=lo, xmax=hi)
    if c['draw']:
        fig, (ax, other) = plt.subplots(1, 2)
        try:
            o.plot_model(ax=ax, **kw)
            require(len(ax.get_lines()) == 1 and not other.get_lines(), 'plot_model draws on the given axes')
            x, y = ax.get_lines()[0].get_data()
        finally:
            plt.close('all')
    else:
        x, y = o.psi_and_w_for_plotting(**kw)
    N = c['npts'] or 100
    close(x, np.exp(np.linspace(math.log(lo), math.log(hi), N)), 1e-10, 0, 'suctions')
    close(y, [w(v).real for v in x], 1e-9, 1e-11 * ws, 'water contents')
    return True
