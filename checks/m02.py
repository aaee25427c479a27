"""M02: radial pore pressure profiles against the permeability profile they are computed for."""
from smear import *
import smear as P
import geotecha.consolidation.smear_zones as Z

CHECK = Check('M02', rule='the average and drain pressures differ and there is a smear zone with other permeability',
              assumptions=['kap is exactly 1 or at least 1 % away from 1 (neighbouring kap of piecewise-linear zones: 3 %)', 'parabolic smear zones have kap >= 1',
                           'non-Darcian series: an error of the size of the first omitted terms is allowed'])

press = st.one_of(st.sampled_from([0., 1.]), num(-20, 50, 14, 700))
muws = st.one_of(st.just(0.), logu(0.01, 20))


def check_profile(name, call, prof, si, uavg, uw, muw, tol=1e-6, extra=None):
    n = prof.n
    want = [prof.u(t, uavg, uw, muw) for t in si]
    size = max(abs(uavg), abs(uw), 1e-3)
    got = np.asarray(call(si), float)
    close(got, want, tol, 1e-12, name, scale=size)
    close(np.asarray(call(np.array(si)), float), got, 1e-13, 1e-13, name + ' array si', scale=size)
    one = np.asarray(call(si[0]), float)
    require(one.size == 1, name + ' scalar si shape')
    close(one.ravel()[0], got[0], 1e-13, 1e-13, name + ' scalar si', scale=size)
    # requested average, drain pressure and jump at the drain wall
    x, w = P.XG, P.WG
    tot = 0.
    cuts = sorted(set([1., n] + prof.edges(1., n)))
    pts, wts = [], []
    for a, b in zip(cuts[:-1], cuts[1:]):
        k = max(2, int(math.ceil(2 * math.log(b / a))))
        g = np.exp(np.linspace(math.log(a), math.log(b), k + 1))
        g[0], g[-1] = a, b
        for p, q in zip(g[:-1], g[1:]):
            h = (q - p) / 2
            pts.append((p + q) / 2 + h * x)
            wts.append(h * w)
    pts, wts = np.concatenate(pts), np.concatenate(wts)
    avg = 2 / (n**2 - 1) * (wts * pts) @ np.asarray(call(np.clip(pts, 1, n)), float)
    close(avg, uavg, 1e-4, 1e-9, name + ': average over the influence area', scale=size)
    return uavg != uw


def args(c):
    return dict(uavg=c['uavg'], uw=c['uw'], muw=c['muw'])


case = rec(c=smear(), r=rfr, uavg=press, uw=press, muw=muws)


@CHECK.test(case, quick=1200, thorough=50000)
def models(d):
    c = d['c']
    n, s, kap = c['n'], c['s'], c['kap']
    a = args(d)
    si = radii(n, d['r']) + [1., n, min(s, n)]
    check_profile('u_ideal', lambda x: Z.u_ideal(n, x, **a), P.Profile([(1., n, ones)]), si, **a)
    check_profile('u_constant', lambda x: Z.u_constant(n, s, kap, x, **a), P.constant(n, s, kap), si, **a)
    check_profile('u_linear', lambda x: Z.u_linear(n, s, kap, x, **a), P.linear(n, s, kap), si, **a)
    if kap >= 1:
        check_profile('u_parabolic', lambda x: Z.u_parabolic(n, s, kap, x, **a), P.parabolic(n, s, kap), si, tol=1e-5, **a)
    return a['uavg'] != a['uw'] and s > 1 and kap != 1


def forms(fn, c, step, a):
    s, k = c['s'], c['kap']
    out = [lambda x: fn(s, k, x, **a)]
    if len(s) > 1 + step:
        out.append(lambda x: fn(s[:-1], k[:-1], x, n=s[-1], kap_m=k[-1], **a))
        if k[-1] == k[-2]:
            out.append(lambda x: fn(s[:-1], k[:-1], x, n=s[-1], **a))
    return out


@CHECK.test(rec(c=pieces(False, False), r=rfr, uavg=press, uw=press, muw=muws), quick=500, thorough=30000)
def piecewise_constant(d):
    c, a = d['c'], args(d)
    n = c['s'][-1]
    for f in forms(Z.u_piecewise_constant, c, 0, a):
        check_profile('u_piecewise_constant', f, P.pw_constant(c['s'], c['kap']), radii(n, d['r']) + [1.] + c['s'], **a)
    return a['uavg'] != a['uw'] and len(set(c['kap'])) > 1


@CHECK.test(rec(c=pieces(True, True), r=rfr, uavg=press, uw=press, muw=muws), quick=500, thorough=30000)
def piecewise_linear(d):
    c, a = d['c'], args(d)
    n = c['s'][-1]
    for f in forms(Z.u_piecewise_linear, c, 1, a):
        check_profile('u_piecewise_linear', f, P.pw_linear(c['s'], c['kap']), radii(n, d['r']) + c['s'], **a)
    return a['uavg'] != a['uw'] and len(c['s']) > 2 and len(set(c['kap'])) > 1


nflow = st.one_of(st.sampled_from([1.2, 1.5, 2.]), logu(1.02, 3))


@CHECK.test(rec(c=pieces(False, False), r=rfr, uavg=press, uw=press, muw=muws, nf=nflow, nterms=st.sampled_from([20, 20, 60, 200])), quick=400, thorough=20000)
def non_darcy(d):
    """u - uw follows (kap (1/t - t/n**2))**(1/nflow); the series is cut off after nterms"""
    c, a, nf, N = d['c'], args(d), d['nf'], d['nterms']
    p = P.pw_constant(c['s'], c['kap'])
    n = p.n
    si = radii(n, d['r']) + [1.] + c['s']
    want = np.array([p.u_nf(t, a['uavg'], a['uw'], a['muw'], nf) for t in si])
    size = max(abs(a['uavg'] - a['uw']), 1e-3)
    # omitted terms: sum_{j>=N} |(-1/nf)_j/j!| / (2j) ~ N**(-1-1/nf) at t=n, relative to the leading term
    rel = 0.2 * N**(-1. - 1. / nf) * n**(1 - 1 / nf) * max(c['kap'])**(1 / nf)
    T = 1e-6 * (abs(a['uavg']) + abs(a['uw']) + size) + size * rel / (p.beta(nf) + a['muw'])
    call = lambda x: Z.non_darcy_u_piecewise_constant(c['s'], c['kap'], x, nflow=nf, nterms=N, **a)
    got = np.asarray(call(si), float)
    label('err 1e%d of allowed' % math.floor(math.log10(1e-9+np.abs(got-want).max()/T)))
    close(got, want, 0, T, 'non_darcy_u_piecewise_constant')
    if len(c['s']) > 1:
        close(np.asarray(Z.non_darcy_u_piecewise_constant(c['s'][:-1], c['kap'][:-1], si, n=n, kap_m=c['kap'][-1], nflow=nf, nterms=N, **a), float), got, 1e-10, 1e-10, 'n given separately', scale=size)
    return a['uavg'] != a['uw'] and len(set(c['kap'])) > 1 and T < 0.05 * size
