"""C07: drains with varying capacity (Deng et al. 2013, 2014) and soil-column foundations (Lu et al. 2010)."""
from harness import *
import smear
from geotecha.consolidation.dengetal2013and2014 import dengetal2013, dengetal2014
from geotecha.consolidation.luetal2010 import luetal2010

CHECK = Check('C07', rule='well resistance (or the column) changes the decay rate by more than 1 % and pressures between 2 % and 98 % of the initial one occur',
              assumptions=['drain capacity stays positive above the base (A2 <= A1)', 'differences up to the omitted series terms are allowed'])
XG, WG = np.polynomial.legendre.leggauss(30)


def gauss(f, a, b, m=6):
    g = np.linspace(a, b, int(m) + 1)
    return sum((q - p) / 2 * (WG @ f((p + q) / 2 + (q - p) / 2 * XG)) for p, q in zip(g[:-1], g[1:]))


SOIL = dict(rw=logu(0.02, 0.5), n=num(2, 40), s=st.one_of(st.none(), num(1.05, 0.999e1)), kap=num(0.5, 10), kh=logu(1e-9, 1), mv=logu(1e-5, 1), gamw=st.sampled_from([10., 9.81]), ui=num(0.5, 200),
            H=logu(0.5, 40), G=logu(1e-3, 30), z=st.lists(num(0, 1), min_size=1, max_size=4), T=st.lists(logu(1e-3, 3), min_size=1, max_size=3), form=st.sampled_from(['array', 'list', 'scalar']))


def soil(c):
    rw = c['rw']
    re = rw * c['n']
    kw = dict(rw=rw, re=re, H=c['H'], kh=c['kh'], mv=c['mv'], gamw=c['gamw'], ui=c['ui'])
    if c['s'] is None:
        mu = smear.Profile([(1., c['n'], smear.ones)]).mu()
    else:
        s = min(c['s'], 1 + 0.9 * (c['n'] - 1))
        kw.update(rs=s * rw, ks=c['kh'] / c['kap'])
        mu = smear.constant(c['n'], s, c['kap']).mu()
    kw['kw0'] = c['kh'] * c['H']**2 / rw**2 / c['G']      # G = kh H^2/(kw0 rw^2)
    ch = c['kh'] / c['mv'] / c['gamw']
    z = np.array(c['z']) * c['H']
    t = np.array(c['T']) * mu * re**2 / 2 / ch
    return kw, mu, ch, re, z, t


def call(f, form, z, t, **kw):
    if form == 'scalar':
        return np.array([[np.asarray(f(float(a), float(b), **kw)).item() for b in t] for a in z])
    if form == 'list':
        return np.asarray(f(list(z), list(t), **kw))
    s = snapshot(z, t)
    r = np.asarray(f(z, t, **kw))
    same_snapshot(s, z, t)
    return r


@CHECK.test(rec(A1=num(0.5, 2), A2=st.one_of(st.just(0.), num(-1, 1), num(-1, 1), st.sampled_from([1., 1., 0.99, -1.]), num(-5, 1), logu(1e-6, 1e-2)), A3=st.one_of(st.just(0.), logu(0.01, 5), logu(0.01, 5), logu(1e-12, 0.01), logu(5, 400)), **SOIL), quick=1200, thorough=25000)
def deng2013(c):
    """Hansbo drain at every depth: du/dt = -2 ch u/(re^2 (mu + well resistance(z, t)))"""
    kw, mu, ch, re, z, t = soil(c)
    A1, A2, H = c['A1'], c['A1'] * c['A2'], c['H']
    A3 = c['A3'] / t.max()
    got = call(dengetal2013, c['form'], z, t, A1=A1, A2=A2, A3=A3, **kw)
    require(got.shape == (len(z), len(t)), 'shape %s' % (got.shape,))
    qw0 = kw['kw0'] * math.pi * kw['rw']**2
    want, well = np.empty_like(got), []
    for i, a in enumerate(z):
        b_, y = A2 / A1, a / H
        if A2 == A1:
            w = y
        elif b_ > 0.3:
            w = y / b_ + ((1 - b_) / b_**2 * math.log1p(-b_ * y) if y < 1 or b_ < 1 else 0.)     # integral of (1 - y)/(1 - b y)
        else:
            w = gauss(lambda v: (1 - v) / (1 - b_ * v), 0., y)
        w *= 2 * math.pi * c['kh'] * H * H / (qw0 * A1)
        well.append(w / mu)
        for j, b in enumerate(t):
            want[i, j] = c['ui'] * math.exp(-gauss(lambda x: 2 * ch / re**2 / (mu + w * np.exp(A3 * x)), 0., b, max(6, A3 * b)))
    close(got, want, 1e-7, 1e-9 * c['ui'], 'pore pressure')
    return max(well) > 0.01 and bool(((got > .02 * c['ui']) & (got < .98 * c['ui'])).any())


@CHECK.test(rec(A3=st.one_of(st.just(0.), logu(0.01, 5), logu(0.01, 5), logu(1e-12, 0.01), logu(5, 30)), nterms=st.sampled_from([None, 20, 300]), **SOIL), quick=800, thorough=15000)
def deng2014(c):
    """drain flow solved exactly: modes sin(M z/H); the sum for uniform initial pressure converges like the series of 1"""
    kw, mu, ch, re, z, t = soil(c)
    A3, H = c['A3'] / t.max(), c['H']
    if c['nterms']:
        kw['nterms'] = c['nterms']
    got = call(dengetal2014, c['form'], z, t, A3=A3, **kw)
    require(got.shape == (len(z), len(t)), 'shape %s' % (got.shape,))
    M = (np.arange(4000) + .5) * math.pi
    N = c['nterms'] or 100
    # soil: -u' mv gamw/kh re^2 mu/2 = u - w ; drain: kw rw^2 (M/H)^2 w = -(re^2 - rw^2) mv gamw u'
    r = 1 / (kw['kw0'] * kw['rw']**2 * (M / H)**2) * (re**2 - kw['rw']**2) * c['mv'] * c['gamw']
    lam0 = 2 * ch / re**2 / mu
    for j, b in enumerate(t):
        g = np.linspace(0, b, int(max(5, A3 * b)))
        I = np.zeros_like(M)
        for p, q in zip(g[:-1], g[1:]):
            for x, w in zip((p + q) / 2 + (q - p) / 2 * XG, WG):
                I += (q - p) / 2 * w / (1 / lam0 + r * math.exp(A3 * x))
        d0 = math.exp(-lam0 * b)
        d = np.exp(-I) - d0
        for i, a in enumerate(z):
            sn = np.sin(M * a / H)
            want = c['ui'] * (d0 + np.sum(2 / M * sn * d))
            tol = c['ui'] * (abs(d0 * (1 - np.sum(2 / M[:N] * sn[:N]))) + np.sum(np.abs(2 / M[N:] * d[N:])) + 1e-7)
            close(got[i, j], want, 1e-7, tol, 'pore pressure (exact)')
            close(got[i, j], c['ui'] * np.sum(2 / M[:N] * sn[:N] * np.exp(-I[:N])), 1e-7, 1e-9 * c['ui'], 'pore pressure (%d terms)' % N)
    return r[0] * lam0 > 0.01 and bool(((got > .02 * c['ui']) & (got < .98 * c['ui'])).any())


@CHECK.test(rec(rc=logu(0.02, 1), n=num(1.5, 20), s=st.one_of(st.none(), num(1.05, 9)), kap=num(0.5, 10), kv=logu(1e-3, 10), kvc=st.one_of(st.none(), logu(1e-2, 1e4)), kh=logu(1e-2, 10), khc=logu(1e-2, 1e3),
                mvs=logu(1e-3, 1), Y=logu(0.2, 500), gamw=st.sampled_from([10., 9.81]), H=logu(0.5, 40), u=st.tuples(num(0, 100), num(0, 100)), nterms=st.sampled_from([None, 30, 300]), defaults=st.booleans(),
                z=st.lists(num(0, 1), min_size=1, max_size=4), T=st.lists(logu(1e-3, 2), min_size=1, max_size=3)), quick=1200, thorough=25000)
def lu2010(c):
    """equal strain soil and column: continuity in each, flow between them, linear initial pressure, drained top, closed base"""
    n, rc, H = c['n'], c['rc'], c['H']
    re = n * rc
    kw = dict(rc=rc, re=re, H=H, kv=c['kv'], kvc=c['kvc'] or c['kv'], kh=c['kh'], khc=c['khc'], mvs=c['mvs'], mvc=c['mvs'] / c['Y'], gamw=c['gamw'], utop=c['u'][0], ubot=c['u'][1])
    if c['s'] is None:
        mu = smear.Profile([(1., n, smear.ones)]).mu()
    else:
        s = min(c['s'], 1 + 0.9 * (n - 1))
        kw.update(rs=s * rc, ks=c['kh'] / c['kap'])
        mu = smear.constant(n, s, c['kap']).mu()
    if c['defaults']:
        for k, v in dict(kv=1., kvc=1., kh=1., khc=1., mvs=.1, mvc=.1, gamw=10, utop=1, ubot=1).items():
            if c['s'] is None or k != 'kh':
                kw.pop(k)
                c[k] = v
        c['kvc'], c['Y'], c['u'] = 1., 1., (1, 1)
    kv, kvc, kh, khc, mvs, Y, gw = c['kv'], c['kvc'] or c['kv'], c['kh'], c['khc'], c['mvs'], c['Y'], c['gamw']
    N = c['nterms'] or 100
    if c['nterms']:
        kw['nterms'] = N
    M = (np.arange(3000) + .5) * math.pi
    # unknown amplitudes relative to the mean u: soil a, column b, strain rate e: a (n^2-1) + b = n^2, e = mvs n^2 beta/(n^2-1+Y)
    # Qs = e - kv/gw (M/H)^2 a ; a - b = gw Qs R ; n^2 e = (M/H)^2/gw ((n^2-1) kv a + kvc b)
    R = re**2 * mu / 2 / kh + rc**2 * (n**2 - 1) / 8 / khc
    m2 = (M / H)**2
    a, b, beta = np.empty_like(M), np.empty_like(M), np.empty_like(M)
    for i in range(len(M)):
        A = np.array([[n**2 - 1, 1, 0], [1 + R * kv * m2[i], -1, -gw * R], [(n**2 - 1) * kv * m2[i] / gw, kvc * m2[i] / gw, -n**2]])
        sc = np.abs(A).max(axis=0)
        x = np.linalg.solve(A / sc, [n**2, 0, 0]) / sc
        a[i], b[i], beta[i] = x[0], x[1], x[2] * (n**2 - 1 + Y) / mvs / n**2
    t = np.array(c['T']) / beta[0]
    z = np.array(c['z']) * H
    sn = snapshot(z, t)
    got = luetal2010(z, t, **kw)
    same_snapshot(sn, z, t)
    got1 = luetal2010(float(z[-1]), float(t[-1]), **kw)
    for g, g1 in zip(got, got1):
        close(np.asarray(g1).ravel(), np.asarray(g).ravel()[-1:], 1e-12, 0, 'scalar arguments')
    u0, u1 = c['u']
    cf = 2 / M * (u0 + (u1 - u0) * np.sin(M) / M)
    big = max(abs(u0), abs(u1))
    for k, (name, amp) in enumerate([('pore pressure', 1 + 0 * M), ('soil pressure', a), ('column pressure', b)]):
        E = np.exp(-np.multiply.outer(t, beta)) * (cf * amp)
        want = np.sin(np.multiply.outer(z / H, M)) @ E.T
        tol = np.abs(E[:, N:]).sum(axis=1)
        # the difference between soil and column amplitudes is obtained by subtraction
        close(got[k], want, 1e-7, tol[None, :] * np.ones((len(z), 1)) + 1e-8 * big * (1 + np.abs(amp).max()), name)
    E = np.exp(-np.multiply.outer(t, beta)) * (cf / M)
    avp = E.sum(axis=1)
    tol = np.abs(E[:, N:]).sum(axis=1) + 1e-8 * big
    close(np.ravel(got[3]), avp, 1e-7, tol, 'average pressure')
    st_ = H * mvs * n**2 / (n**2 - 1 + Y)
    close(np.ravel(got[4]), st_ * ((u0 + u1) / 2 - avp), 1e-7, st_ * tol, 'settlement')
    return abs(a[0] - b[0]) > 0.01 and bool(((avp > .02 * big) & (avp < .98 * big)).any())
