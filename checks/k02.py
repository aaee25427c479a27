"""K02: permeability - void ratio models against reference formulas and round trips."""
from harness import *
import geotecha.constitutive_models.void_ratio_permeability as V

CHECK = Check('K02', quick_scale=2, rule='several segments on at least one log axis, data given from high to low, or arguments outside the data',
              assumptions=['outside the data the piecewise linear model keeps its end values (numpy.interp, as in the examples)'])

PTS = rec(k0=logu(1e-3, 10), dk=st.lists(num(0.05, 1.2), min_size=1, max_size=5), e0=num(.3, 2), de=st.lists(num(0.05, 1), min_size=5, max_size=5),
          xlog=st.booleans(), ylog=st.booleans(), kd=st.booleans(), falling=st.booleans(), aslist=st.booleans())


@CHECK.test(rec(m=PTS, f=st.lists(num(-.3, 1.3), min_size=1, max_size=6)), quick=2500, thorough=60000)
def piecewise(c):
    """interpolation on the chosen axes, both ways; arrays = scalars; inputs untouched"""
    d = c['m']
    n = len(d['dk'])
    fx = math.log10 if d['xlog'] else float
    gx = (lambda v: 10.**v) if d['xlog'] else float
    fy = math.log10 if d['ylog'] else float
    gy = (lambda v: 10.**v) if d['ylog'] else float
    K, E = [d['k0']], [d['e0']]
    for a, b in zip(d['dk'], d['de']):
        K.append(K[-1] * (1 + a * 3))
        E.append(E[-1] + b)
    if d['falling']:   # void ratio falling with permeability: still one to one
        E = E[::-1]
    o = -1 if d['kd'] else 1
    a, b = K[::o], E[::o]
    if not d['aslist']:
        a, b = np.array(a), np.array(b)
    snap = snapshot(a, b)
    m = V.PwiseLinearPermeabilityModel(a, b, xlog=d['xlog'], ylog=d['ylog'])
    same_snapshot(snap, a, b)
    X, Y = [fx(v) for v in K], [fy(v) for v in E]

    def lin(x, A, B):
        if A[0] > A[-1]:
            A, B = A[::-1], B[::-1]
        if x <= A[0]:
            return B[0]
        if x >= A[-1]:
            return B[-1]
        i = max(j for j in range(len(A) - 1) if A[j] <= x)
        w = (x - A[i]) / (A[i + 1] - A[i])
        return B[i] * (1 - w) + B[i + 1] * w
    out = False
    ks, es, ek, ke = [], [], [], []
    for f in c['f']:
        x = X[0] + (X[-1] - X[0]) * f
        y = Y[0] + (Y[-1] - Y[0]) * f
        k, e = gx(x), gy(y)
        if k <= 0 or e <= 0:
            continue
        out = out or not 0 <= f <= 1
        we, wk = gy(lin(x, X, Y)), gx(lin(y, Y, X))
        close(m.e_from_k(k), we, 1e-10, 1e-12, 'void ratio from permeability %r' % k)
        close(m.k_from_e(e), wk, 1e-10, 1e-12, 'permeability from void ratio %r' % e)
        if 0 <= f <= 1:
            close(m.k_from_e(m.e_from_k(k)), k, 1e-8, 0, 'k -> e -> k')
            close(m.e_from_k(m.k_from_e(e)), e, 1e-8, 0, 'e -> k -> e')
        ks.append(k), es.append(e), ek.append(we), ke.append(wk)
    if ks:
        A, B = np.array(ks), np.array(es)
        snap = snapshot(A, B)
        close(m.e_from_k(A), ek, 1e-10, 1e-12, 'void ratios of an array')
        close(m.k_from_e(B), ke, 1e-10, 1e-12, 'permeabilities of an array')
        same_snapshot(snap, A, B)
    for k, e in zip(K, E):
        close(m.e_from_k(k), e, 1e-11, 0, 'given point')
        close(m.k_from_e(e), k, 1e-11, 0, 'given point')
    return (n > 1 and (d['xlog'] or d['ylog'])) or d['kd'] or out


@CHECK.test(rec(Ck=num(.05, 4), ka=logu(1e-12, 1e2), ea=num(.2, 5), e=st.lists(num(0.05, 8), min_size=1, max_size=5), ratio=logu(.01, 100)), quick=1500, thorough=30000)
def ck_and_constant(c):
    """one void ratio step of Ck is a factor ten; passes through (ka, ea); constant model"""
    m = V.CkPermeabilityModel(c['Ck'], c['ka'], c['ea'])
    close(m.k_from_e(c['ea']), c['ka'], 1e-13, 0, 'reference point')
    close(m.e_from_k(c['ka']), c['ea'], 1e-13, 1e-14, 'reference point')
    close(m.k_from_e(c['ea'] + c['Ck']), 10 * c['ka'], 1e-9, 0, 'one Ck')
    E = np.array(c['e'])
    k = [c['ka'] * math.exp((e - c['ea']) / c['Ck'] * math.log(10)) for e in c['e']]
    close(m.k_from_e(E), k, 1e-8, 0, 'permeabilities')
    for e, v in zip(c['e'], k):
        close(m.k_from_e(e), v, 1e-8, 0, 'permeability')
        if 1e-290 < v < 1e290:
            close(m.e_from_k(m.k_from_e(e)), e, 1e-10, 1e-10, 'round trip')
    kk = c['ka'] * c['ratio']
    close(m.e_from_k(np.array([kk, c['ka']])), [c['ea'] + c['Ck'] * math.log10(c['ratio']), c['ea']], 1e-10, 1e-10, 'void ratios')
    o = V.ConstantPermeabilityModel(c['ka'])
    close(o.k_from_e(E), [c['ka']] * len(E), 0, 0, 'constant permeabilities')
    close(o.k_from_e(np.array([1, 2])), [c['ka']] * 2, 0, 0, 'constant permeability for whole numbers')
    close(o.k_from_e(c['e'][0]), c['ka'], 0, 0, 'constant permeability')
    raises(ValueError, lambda: o.e_from_k(kk), 'constant model has no void ratio for a permeability')
    return any(e != c['ea'] for e in c['e'])


@CHECK.test(rec(m=PTS, which=st.sampled_from(['ck', 'const', 'pw']), npts=st.integers(2, 30), w=st.tuples(num(0, .4), num(.5, 1)), default=st.booleans(), draw=st.booleans()), quick=500, thorough=8000)
def plotting_points(c):
    """the plotting points lie on the model, inside the requested range"""
    import matplotlib.pyplot as plt
    d = c['m']
    K, E = [d['k0']], [d['e0']]
    for a, b in zip(d['dk'], d['de']):
        K.append(K[-1] * (1 + a * 3))
        E.append(E[-1] + b)
    m = {'ck': lambda: V.CkPermeabilityModel(d['e0'], K[0], E[-1]), 'const': lambda: V.ConstantPermeabilityModel(K[0]),
         'pw': lambda: V.PwiseLinearPermeabilityModel(K, E, xlog=d['xlog'], ylog=d['ylog'])}[c['which']]()
    kw = dict(npts=c['npts'])
    if not c['default']:
        kw.update(xmin=K[0] + (K[-1] - K[0]) * c['w'][0], xmax=K[0] + (K[-1] - K[0]) * c['w'][1])
    lo, hi = kw.get('xmin', K[0] if c['which'] == 'pw' else 1.), kw.get('xmax', K[-1] if c['which'] == 'pw' else 100.)
    if c['draw']:
        fig, (ax, other) = plt.subplots(1, 2)
        try:
            m.plot_model(ax=ax, **kw)
            require(len(ax.get_lines()) == 1 and not other.get_lines(), 'plot_model draws on the given axes')
            x, y = ax.get_lines()[0].get_data()
        finally:
            plt.close('all')
    else:
        x, y = m.e_and_k_for_plotting(**kw)
    require(len(x) == c['npts'] == len(y), 'number of points')
    if c['which'] == 'const':
        close(x, [K[0]] * c['npts'], 0, 0, 'constant permeability')
        require(np.all(np.diff(y) != 0), 'void ratios differ')
    else:
        close([x[0], x[-1]], [lo, hi], 1e-12, 0, 'range')
        for a, b in zip(x, y):
            close(m.e_from_k(a), b, 1e-12, 0, 'point on the model')
    return not c['default']


@CHECK.test(rec(a=num(0.1, 3), b=num(0, 2), k=num(1, 100), q=num(0, 5)), quick=200, thorough=2000)
def functions(c):
    """user functions get the stored arguments followed by the call's"""
    a, b, k, q = c['a'], c['b'], c['k'], c['q']
    o = V.FunctionPermeabilityModel(lambda A, x, B=0., Q=0.: A * x + B + Q, lambda A, x, B=0., Q=0.: (x - B - Q) / A, a, B=b)
    close(o.e_from_k(k, Q=q), a * k + b + q, 1e-14, 0, 'user function e')
    close(o.k_from_e(np.array([a * k + b + q, a + b + q]), Q=q), [k, 1], 1e-9, 1e-12, 'user function k')
    return True
