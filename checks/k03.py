"""K03: Darcy and Hansbo flow laws against a scalar reference, all ways of specifying them."""
from harness import *
import geotecha.constitutive_models.velocity_hydraulic_gradient as V

CHECK = Check('K03', rule='non-Darcian law with gradients on both sides of the transition or of negative sign, or an equivalent specification was compared',
              assumptions=['the two specifications with kstar and klinear but without n have two solutions when iL < 1: generated with iL >= 1.05 only',
                           'dv_di carries the sign of the gradient, as in the documented examples', 'heads driving drains are positive'])

LAW = rec(kstar=logu(1e-9, 10), n=st.one_of(st.sampled_from([1.0001, 1.01, 1.3, 2., 1.5]), num(1.001, 4)), iL=logu(.01, 50))
GR = st.lists(st.one_of(num(-60, 60), num(-1, 1), st.sampled_from(['L', '-L', 'L+', 'L-'])), min_size=1, max_size=8)


def law(c):
    k, n, iL = c['kstar'], c['n'], c['iL']
    return k, n, iL, iL * (n - 1) / n, k * n * iL**(n - 1)


def gradients(g, iL):
    d = {'L': iL, '-L': -iL, 'L+': iL * 1.01, 'L-': iL * .99}
    return [d.get(v, v) for v in g]


def v_ref(i, k, n, iL, i0, kl):
    a = abs(i)
    v = kl * (a - i0) if a >= iL else k * a**n
    return math.copysign(v, i) if i else 0.


SPECS = [('kstar', 'n', 'iL'), ('kstar', 'n', 'i0'), ('kstar', 'n', 'klinear'), ('kstar', 'iL', 'i0'), ('kstar', 'iL', 'klinear'),
         ('kstar', 'i0', 'klinear'), ('n', 'iL', 'klinear'), ('n', 'i0', 'klinear'), ('iL', 'i0', 'klinear')]


@CHECK.test(rec(p=LAW, spec=st.sampled_from(SPECS), g=GR, as_=st.sampled_from(['f', 'a', 'int'])), quick=4000, thorough=100000)
def hansbo(c):
    """v(i), i(v), dv/di: reference, inverse, odd, continuous; scalars and arrays; every specification"""
    k, n, iL, i0, kl = law(c['p'])
    spec = tuple(c['spec'])
    if spec in (('kstar', 'iL', 'klinear'), ('kstar', 'i0', 'klinear')) and iL < 1.05:
        return False
    d = dict(kstar=k, n=n, iL=iL, i0=i0, klinear=kl)
    m = V.HansboNonDarcianFlowModel(**{v: d[v] for v in spec})
    # the exponent is found from differences that lose digits when n is close to 1
    cond = 1e-13 / (n - 1) * (1 + abs(math.log(iL))) * 50 + 1e-10
    if spec == ('kstar', 'n', 'klinear'):
        cond = 1e-13 / (n - 1) * 50 + 1e-10
    if spec in (('kstar', 'iL', 'klinear'), ('kstar', 'i0', 'klinear')):
        cond = 1e-11 + 1e-13 / (n - 1) * (1 + 1 / math.log(iL)) * 50
    for name in d:
        t = cond * 10 if name in ('i0', 'iL') else cond * 3
        close(getattr(m, name), d[name], t, 0, '%s from %s' % (name, spec))
    g = gradients(c['g'], iL)
    if c['as_'] == 'int':
        g = [int(v) for v in g]
    want = [v_ref(i, k, n, iL, i0, kl) for i in g]
    far = lambda i: abs(abs(i) - m.iL) > 1e-12 * m.iL
    T = cond * 30 + 1e-11
    for i, v in zip(g, want):
        close(m.v_from_i(i), v, T, 0, 'velocity at gradient %r' % i, scale=kl * i0 + k * min(iL, abs(i))**n)
        close(m.v_from_i(-i), -v, T, 0, 'velocity is odd', scale=kl * i0 + k * min(iL, abs(i))**n)
        close(m.i_from_v(v), i, T, 0, 'gradient at velocity %r' % v, scale=max(abs(i), i0))
        close(m.i_from_v(-v), -i, T, 0, 'gradient is odd', scale=max(abs(i), i0))
        s = kl if abs(i) >= iL else k * n * abs(i)**(n - 1)
        close(m.dv_di(i), s * np.sign(i), T * 10, 0, 'slope at %r' % i)
        close(m.dv_di(-i), -s * np.sign(i), T * 10, 0, 'slope at %r' % -i)
        if abs(i) > 1e-3 and abs(abs(i) - iL) > .02 * iL:
            h = abs(i) * 1e-6
            fd = (m.v_from_i(i + h) - m.v_from_i(i - h)) / (2 * h)
            close(abs(m.dv_di(i)), fd, 1e-5, 0, 'slope against finite difference')
    if c['as_'] != 'f':
        G = np.array(g)
        snap = snapshot(G)
        W = np.array([float(m.v_from_i(i)) for i in g])
        close(m.v_from_i(G), W, 1e-13, 0, 'velocities of an array')
        close(m.i_from_v(W), [float(m.i_from_v(v)) for v in W], 1e-13, 0, 'gradients of an array')
        close(m.dv_di(G), [float(m.dv_di(i)) for i in g], 1e-13, 0, 'slopes of an array')
        same_snapshot(snap, G)
    close(m.vL, kl * (iL - i0), T * 10, 0, 'velocity at the transition')
    order = sorted(set(g))
    vv = [float(m.v_from_i(i)) for i in order]
    require(all(b > a for a, b in zip(vv, vv[1:])), lambda: 'velocity does not increase: %r at %r' % (vv, order))
    return spec != SPECS[0] or (any(abs(i) > iL for i in g) and any(abs(i) < iL for i in g)) or min(g) < 0


@CHECK.test(rec(k=logu(1e-9, 10), kl=logu(1e-9, 10), spec=st.sampled_from(SPECS), z=st.sampled_from(['n', 'iL', 'i0']), g=GR, other=num(1.2, 3)), quick=1000, thorough=20000)
def reduces_to_darcy(c):
    """n=1, iL=0 or i0=0: linear with klinear (or kstar where klinear is not given)"""
    if c['z'] not in c['spec']:
        return False
    d = dict(kstar=c['k'], klinear=c['kl'], n=c['other'], iL=c['other'], i0=c['other'] - 1)
    d[c['z']] = 1 if c['z'] == 'n' else 0
    if 'iL' in c['spec'] and 'i0' in c['spec']:
        d['iL'] = d['i0'] = 0
    k = c['kl'] if 'klinear' in c['spec'] else c['k']
    m = V.HansboNonDarcianFlowModel(**{v: d[v] for v in c['spec']})
    o = V.DarcyFlowModel(k)
    g = gradients(c['g'], 5.)
    for x in [np.array(g)] + g:
        close(m.v_from_i(x), np.asarray(x) * k, 1e-13, 0, 'reduced velocity')
        close(o.v_from_i(x), np.asarray(x) * k, 1e-13, 0, 'Darcy velocity')
        close(m.i_from_v(x), np.asarray(x) / k, 1e-13, 0, 'reduced gradient')
        close(o.i_from_v(x), np.asarray(x) / k, 1e-13, 0, 'Darcy gradient')
        close(m.dv_di(x), k * np.sign(x), 1e-13, 0, 'reduced slope')
        close(o.dv_di(x), k * np.sign(x), 1e-13, 0, 'Darcy slope')
    return True


@CHECK.test(rec(p=LAW, mask=st.integers(0, 31), bad=st.sampled_from(['count', 'order', 'n'])), quick=500, thorough=5000)
def rejected(c):
    """three parameters, one of them a permeability; n>=1; iL > i0"""
    k, n, iL, i0, kl = law(c['p'])
    d = dict(kstar=k, n=n, iL=iL, i0=i0, klinear=kl)
    if c['bad'] == 'count':
        names = [v for j, v in enumerate(sorted(d)) if c['mask'] >> j & 1]
        if len(names) == 3 and ('kstar' in names or 'klinear' in names):
            V.HansboNonDarcianFlowModel(kstar=k, n=n, iL=iL)
            return False
        raises(TypeError, lambda: V.HansboNonDarcianFlowModel(**{v: d[v] for v in names}), 'parameters %s' % names)
    elif c['bad'] == 'order':
        big = iL * (1.01 + c['mask'] / 8)
        perm = dict(kstar=k) if c['mask'] % 2 else dict(klinear=kl)
        raises(ValueError, lambda: V.HansboNonDarcianFlowModel(iL=iL, i0=big, **perm), 'iL less than i0')
    else:
        nn = [.9, .5, .99][c['mask'] % 3]
        perm = dict(kstar=k) if c['mask'] % 2 else dict(klinear=kl)
        third = dict(iL=iL) if c['mask'] % 4 > 1 else dict(i0=iL)
        raises(ValueError, lambda: V.HansboNonDarcianFlowModel(n=nn, **dict(perm, **third)), 'n below 1')
    return True


@CHECK.test(rec(p=LAW, eta=logu(1e-6, 10), head=logu(1e-3, 100), gamw=maybe(num(5, 20)), f=num(1.1, 5)), quick=500, thorough=10000)
def drain_strain_rate(c):
    """rate = eta * klinear * gamw**(n-1) * head**n (Darcy: eta * k * head)"""
    k, n, iL, i0, kl = law(c['p'])
    m, o = V.HansboNonDarcianFlowModel(kstar=k, n=n, iL=iL), V.DarcyFlowModel(k)
    kw = {} if c['gamw'] is None else dict(gamw=c['gamw'])
    gw = c['gamw'] or 10
    h, eta = c['head'], c['eta']
    for H in (h, np.array([h, h * c['f']])):
        close(m.vdrain_strain_rate(eta, H, **kw), eta * kl * np.asarray(H)**n * gw**(n - 1), 1e-11, 0, 'Hansbo strain rate')
        close(o.vdrain_strain_rate(eta, H, **kw), eta * k * np.asarray(H), 1e-13, 0, 'Darcy strain rate')
    return c['gamw'] is not None


@CHECK.test(rec(p=LAW, darcy=st.booleans(), npts=st.integers(2, 30), w=maybe(st.tuples(num(-20, 1), num(2, 60))), draw=st.booleans()), quick=300, thorough=4000)
def plotting_points(c):
    import matplotlib.pyplot as plt
    k, n, iL, i0, kl = law(c['p'])
    m = V.DarcyFlowModel(k) if c['darcy'] else V.HansboNonDarcianFlowModel(kstar=k, n=n, iL=iL)
    kw = dict(npts=c['npts'])
    lo, hi = c['w'] or (0, 50)
    if c['w']:
        kw.update(xmin=lo, xmax=hi)
    if c['draw']:
        fig, (ax, other) = plt.subplots(1, 2)
        try:
            m.plot_model(ax=ax, **kw)
            require(len(ax.get_lines()) == 1 and not other.get_lines(), 'plot_model draws on the given axes')
            x, y = ax.get_lines()[0].get_data()
        finally:
            plt.close('all')
    else:
        x, y = m.v_and_i_for_plotting(**kw)
    close(x, np.linspace(lo, hi, c['npts']), 1e-13, 1e-13, 'gradients')
    w = [k * i if c['darcy'] else v_ref(i, k, n, iL, i0, kl) for i in x]
    close(y, w, 1e-11, 1e-300, 'velocities', scale=kl * i0)
    return c['w'] is not None
