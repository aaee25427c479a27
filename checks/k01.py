"""K01: void ratio - effective stress models against a scalar reference of the load/unload path."""
from harness import *
import geotecha.constitutive_models.void_ratio_stress as V

CHECK = Check('K01', quick_scale=2, rule='the path unloads below the preconsolidation stress and yields again, or the model is piecewise linear with several segments',
              assumptions=['the recompression slope is flatter than every compression slope (documented)', 'compression data is monotonic and stresses at yield stay within it'])


def bend(cls):
    return rec(kind=st.just(cls), Cc=num(0.2, 3), cr=num(0.05, 0.9), siga=st.one_of(logu(1, 200), logu(1e-6, 1e9)), ea=num(1, 4))


def points(d):
    """compression data, its order, axes, recompression slope"""
    return d


PW = rec(kind=st.just('pw'), s0=st.one_of(logu(1, 50), logu(1e-6, 1e9)), ds=st.lists(num(0.05, 1), min_size=1, max_size=5), de=st.lists(num(0.05, 1), min_size=5, max_size=5), xlog=st.booleans(), ylog=st.booleans(), cr=num(0.05, 0.9), down=st.booleans(), ints=st.booleans())


class Ref(object):
    """scalar model: compression curve (s -> e in transformed axes) and recompression slope Cr"""
    def __init__(self, d):
        self.kind = d['kind']
        if self.kind == 'av':
            self.av = d['Cc'] / d['siga']
            self.obj = V.AvSoilModel(self.av, d['siga'], d['ea'])
            self.rng = (d['siga'] * .05, d['siga'] * 3)
            self.e = lambda s, p: d['ea'] - self.av * (s - d['siga'])
            self.slope = lambda s, p: [self.av]
            return
        if self.kind == 'cc':
            Cr = d['Cc'] * d['cr']
            self.obj = V.CcCrSoilModel(d['Cc'], Cr, d['siga'], d['ea'])
            self.rng = (d['siga'] * .05, d['siga'] * 20)
            L = math.log10
            def e(s, p):
                m = max(s, p)
                return d['ea'] - d['Cc'] * L(m / d['siga']) + Cr * L(m / s)
            self.e = e
            def slope(s, p):
                c = [Cr] if s < p * (1 - 1e-13) else [d['Cc'], Cr] if s < p else [d['Cc']]      # rounding apart: either
                return [v / s / math.log(10) for v in c]
            self.slope = slope
            return
        n = len(d['ds'])
        X = [math.log10(d['s0']) if d['xlog'] else d['s0']]
        for v in d['ds']:
            X.append(X[-1] + (v if d['xlog'] else v * d['s0']))
        Y = [3. if not d['ylog'] else .5]
        tot = sum(d['de'][:n])
        for v in d['de'][:n]:
            Y.append(Y[-1] - v * ((2.5 if not d['ylog'] else .9) / tot))
        S = [10**v for v in X] if d['xlog'] else X
        E = [10**v for v in Y] if d['ylog'] else Y
        if d['ints'] and S[0] >= 1 and n == 1 and not d['xlog'] and not d['ylog']:
            S, E = [int(S[0]), int(S[0]) + 10], [4, 1]
            X, Y = [float(v) for v in S], [float(v) for v in E]
        slopes = [(Y[i] - Y[i + 1]) / (X[i + 1] - X[i]) for i in range(n)]
        Cr = d['cr'] * min(slopes)
        o = -1 if d['down'] else 1
        a, b = S[::o], E[::o]
        if not d['ints']:
            a, b = np.array(a), np.array(b)
        snap = snapshot(a, b)
        self.obj = V.PwiseLinearSoilModel(a, b, Cr, d['xlog'], d['ylog'])
        same_snapshot(snap, a, b)
        self.rng = (S[0], S[-1])
        fx = (lambda v: math.log10(v)) if d['xlog'] else (lambda v: v)
        self.nodes = S
        def seg(x):
            for i in range(n):
                if x <= X[i + 1]:
                    return i
            return n - 1
        def e(s, p):
            m = fx(max(s, p))
            i = seg(m)
            y = Y[i] - slopes[i] * (m - X[i]) + Cr * (m - fx(s))
            return 10**y if d['ylog'] else y
        self.e = e
        def slope(s, p):
            if s < p * (1 - 1e-13):
                c = [Cr]
            else:
                x = fx(s)
                c = [slopes[i] for i in range(n) if X[i] - 1e-12 * abs(X[i]) <= x <= X[i + 1] + 1e-12 * abs(X[i + 1])] + ([Cr] if s < p else [])
            f = 1.
            if d['ylog']:
                f *= math.log(10) * e(s, p)
            if d['xlog']:
                f /= math.log(10) * s
            return [v * f for v in c]
        self.slope = slope


MODEL = st.one_of(bend('cc'), bend('av'), PW)


@CHECK.test(rec(m=MODEL, path=st.lists(st.tuples(num(0, 1), num(0, 1)), min_size=1, max_size=6), node=st.integers(0, 5)), quick=3000, thorough=60000)
def path(c):
    """stresses with the largest stress so far as preconsolidation stress: e, inverse, slope; vector = scalars"""
    r = Ref(c['m'])
    o = r.obj
    lo, hi = r.rng
    g = math.log(hi / lo)
    def place(f):
        # nodes of the compression data are visited too
        if r.kind == 'pw' and abs(f * 16 - round(f * 16)) < 1e-9 and int(round(f * 16)) % 3 == 0:
            return float(r.nodes[(int(round(f * 16)) + c['node']) % len(r.nodes)])
        return min(max(lo * math.exp(g * f), lo), hi)
    ss, pp, p = [], [], 0.
    back = again = False
    for f, f2 in c['path']:
        s = place(f)
        p = max(p, place(f2) if f2 > 0.7 else p)
        if s < p and p:
            back = True
        elif back:
            again = True
        ss.append(s)
        p = max(p, s)
        pp.append(p)
    for s, p in zip(ss, pp):
        e = r.e(s, p)
        close(o.e_from_stress(s, pstress=p), e, 1e-11, 1e-11, 'void ratio')
        es = e if r.kind != 'pw' or c['m']['ylog'] is False else e
        ts = 1e-9 * s + 1e-9 * p
        if e > 0 or not (r.kind == 'pw' and c['m']['ylog']):
            close(o.stress_from_e(e, pstress=p), s, 0, 10 * ts * (1 + 1 / (c['m']['cr'])), 'stress from void ratio')
        sl = r.slope(s, p)
        av = np.asarray(o.av_from_stress(s, pstress=p), dtype=float)
        require(av.ndim == 0 or av.size == 1, 'slope shape')
        require(any(abs(float(av) - v) <= 1e-9 * abs(v) for v in sl), lambda: 'slope at stress %r with preconsolidation %r: got %r, expected %r' % (s, p, float(av), sl))
        # normally consolidated when no preconsolidation stress is given
        e = r.e(s, s)
        close(o.e_from_stress(s), e, 1e-11, 1e-11, 'void ratio (normally consolidated)')
        close(o.stress_from_e(e), s, 1e-9, 0, 'stress (normally consolidated)')
        av = float(np.asarray(o.av_from_stress(s), dtype=float))
        require(any(abs(av - v) <= 1e-9 * abs(v) for v in r.slope(s, s)), lambda: 'slope (normally consolidated) at %r: got %r, expected %r' % (s, av, r.slope(s, s)))
    S, P = np.array(ss), np.array(pp)
    snap = snapshot(S, P)
    E = np.array([r.e(s, p) for s, p in zip(ss, pp)])
    close(o.e_from_stress(S, pstress=P), E, 1e-11, 1e-11, 'void ratios of an array')
    E0 = E.copy()
    close(o.stress_from_e(E, pstress=P), S, 0, 1e-8 * (S + P) * (1 + 1 / (c['m']['cr'])), 'stresses of an array')
    av = np.asarray(o.av_from_stress(S, pstress=P), dtype=float)
    for i, (s, p) in enumerate(zip(ss, pp)):
        a = float(av if av.ndim == 0 else av[i])
        require(any(abs(a - v) <= 1e-9 * abs(v) for v in r.slope(s, p)), 'slope in an array')
    same_snapshot(snap, S, P)
    same_snapshot([E0], E)
    return again or (r.kind == 'pw' and len(c['m']['ds']) > 1)


@CHECK.test(rec(m=MODEL, npts=st.integers(2, 30), p=st.one_of(st.none(), num(0.05, 1.5)), w=st.one_of(st.none(), st.tuples(num(0.05, .4), num(.5, 1))), draw=st.booleans()), quick=600, thorough=10000)
def plotting_points(c):
    """the plotting points lie on the model, inside the requested range"""
    import matplotlib.pyplot as plt
    r = Ref(c['m'])
    lo, hi = r.rng
    kw = dict(npts=c['npts'])
    if c['w']:
        x1, x2 = lo + (hi - lo) * c['w'][0], lo + (hi - lo) * c['w'][1]
        kw.update(xmin=x1, xmax=x2)
    else:                                   # documented default range
        x1, x2 = (np.min(r.obj.siga), np.max(r.obj.siga)) if r.kind == 'pw' else (1., 100.)
    if c['p'] is not None:
        p = lo + (hi - lo) * min(c['p'], 1.) if c['w'] else x1 + (x2 - x1) * min(c['p'], 1.)
        kw['pstress'] = p
    if c['draw']:
        fig, (ax, other) = plt.subplots(1, 2)
        try:
            r.obj.plot_model(ax=ax, **kw)
            require(len(ax.get_lines()) == 1 and not other.get_lines(), 'plot_model draws on the given axes')
            x, y = ax.get_lines()[0].get_data()
        finally:
            plt.close('all')
    else:
        x, y = r.obj.e_and_stress_for_plotting(**kw)
    require(len(x) == c['npts'] and len(y) == c['npts'], 'number of points')
    require(np.all(np.diff(x) >= 0) and x[-1] > x[0] and abs(x[0] - x1) <= (x2 - x1) / (c['npts'] - 1) * 1.0001 and x.max() <= x2 * (1 + 1e-12) and x.min() >= x1 * (1 - 1e-12), lambda: 'points %r outside %r..%r' % (x, x1, x2))
    for a, b in zip(x, y):
        close(b, r.e(a, kw.get('pstress', a)), 1e-10, 1e-10, 'plotted void ratio')
    return c['p'] is not None


@CHECK.test(rec(a=num(0.1, 3), b=num(0, 2), s=num(1, 100), q=num(0, 5)), quick=200, thorough=2000)
def functions(c):
    """user functions get the stored arguments followed by the call's"""
    a, b, s, q = c['a'], c['b'], c['s'], c['q']
    fe = lambda A, x, B=0., Q=0.: A / x + B + Q
    fs = lambda A, x, B=0., Q=0.: A / (x - B - Q)
    fa = lambda A, x, B=0., Q=0.: A / x**2 + 0 * (B + Q)
    o = V.FunctionSoilModel(fe, fs, fa, a, B=b)
    close(o.e_from_stress(s, Q=q), a / s + b + q, 1e-14, 0, 'user function e')
    close(o.stress_from_e(a / s + b + q, Q=q), s, 1e-9, 0, 'user function stress')
    close(o.av_from_stress(np.array([s, s + 1])), [a / s**2, a / (s + 1)**2], 1e-14, 0, 'user function slope')
    return True
