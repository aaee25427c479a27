"""M03: drain spacing, eta, well resistance and non-Darcian factors follow their definitions."""
from smear import *
import smear as P
import geotecha.consolidation.smear_zones as Z

CHECK = Check('M03', quick_scale=2, rule='a finite factor was compared with an independent integral, or a spacing was recovered',
              assumptions=['kap is exactly 1 or at least 1 % away from 1', 'non-Darcian series: an error of the size of the first omitted terms is allowed',
                           'spacings that keep the smear zone inside the influence radius (n >= 1.02 s); for n < 2.3 s the search may raise ValueError instead (the repository tests demand that for some)'])

pos = logu(0.05, 20)


@CHECK.test(rec(sp=st.lists(pos, min_size=1, max_size=4), pat=st.sampled_from(['Triangle', 'triangle', 't', 'T', 'Square', 's', 'S', 'square'])), quick=150, thorough=3000)
def spacing(c):
    """the influence circle has the area served by one drain"""
    for sp in c['sp']:
        area = sp * sp * (math.sqrt(3) / 2 if c['pat'][0] in 'tT' else 1.)
        close(math.pi * float(Z.re_from_drain_spacing(sp, c['pat']))**2, area, 1e-12, 0, 'influence area')
    close(Z.re_from_drain_spacing(np.array(c['sp']), c['pat']), [Z.re_from_drain_spacing(v, c['pat']) for v in c['sp']], 1e-14, 0, 'array of spacings')
    if c['pat'][0] in 'tT':
        close(Z.re_from_drain_spacing(np.array(c['sp'])), Z.re_from_drain_spacing(np.array(c['sp']), 'Triangle'), 1e-14, 0, 'default pattern')
    raises(ValueError, lambda: Z.re_from_drain_spacing(-c['sp'][0], c['pat']), 'negative spacing')
    raises(ValueError, lambda: Z.re_from_drain_spacing(c['sp'][0], 'x' + c['pat']), 'unknown pattern')
    return True


@CHECK.test(rec(kh=pos, qw=pos, n=logu(1.1, 50), H=pos, f=fr), quick=300, thorough=5000)
def well_resistance(c):
    kh, qw, n, H = c['kh'], c['qw'], c['n'], c['H']
    z = c['f'] * H
    # drain flow qw*(d2w/dz2)... : muw(z) = pi kh/qw z (2H - z) (1 - 1/n**2), zero at the drained top, no gradient at the bottom
    mu = lambda z: float(Z.mu_well_resistance(kh, qw, n, H, z))
    close(mu(z), math.pi * kh / qw * z * (2 * H - z) * (1 - 1 / n**2), 1e-12, 1e-14, 'mu_well_resistance at depth')
    close(float(Z.mu_well_resistance(kh, qw, n, H)), P.WG @ np.array([mu(H / 2 + H / 2 * x) for x in P.XG]) / 2, 1e-10, 0, 'average well resistance')
    close(np.asarray(Z.mu_well_resistance(kh, qw, n, H, np.array([0., z, H]))), [mu(0.), mu(z), mu(H)], 1e-13, 0, 'array of depths')
    return True


MODELS = ['mu_ideal', 'mu_constant', 'mu_linear', 'mu_parabolic', 'mu_overlapping_linear', 'mu_piecewise_constant', 'mu_piecewise_linear']
REFS = dict(mu_ideal=lambda n, s, k: P.Profile([(1., n, ones)]), mu_constant=P.constant, mu_linear=P.linear, mu_parabolic=P.parabolic, mu_overlapping_linear=P.overlapping)


@CHECK.test(rec(model=st.sampled_from(MODELS), c=pieces(True, True), rw=logu(0.02, 0.5), muw=st.one_of(st.just(0.), logu(0.01, 20)), pat=st.sampled_from(['Triangle', 'Square', 't', 's']),
                grow=logu(1.02, 20), by_name=st.booleans(), s=logu(1.05, 20), kap=kaps_big), quick=800, thorough=40000)
def eta_round_trip(c):
    model, rw, muw = c['model'], c['rw'], c['muw']
    if model.startswith('mu_piecewise'):
        s, kap = c['c']['s'], c['c']['kap']
        if model == 'mu_piecewise_constant':   # s are outer radii and one kap per zone
            s = sorted(set(s[1:]))
            kap = kap[:len(s)]
        else:
            q = [(a, b) for i, (a, b) in enumerate(zip(s, kap)) if i == 0 or a > s[i - 1]]
            s, kap = [a for a, b in q], [b for a, b in q]
            if any(u != v and abs(u / v - 1) < 0.03 for u, v in zip(kap[:-1], kap[1:])):
                return False
        kap = kap[:-1] + [1.]
        if model == 'mu_piecewise_linear' and len(kap) > 1 and kap[-2] != 1 and abs(kap[-2] - 1) < 0.03:
            return False
        n = c['grow'] * s[-1]
        prof = P.pw_constant(s + [n], kap + [kap[-1]]) if model == 'mu_piecewise_constant' else P.pw_linear(s + [n], kap + [kap[-1]])
        args, kw = (s, kap), dict(n=n)
    else:
        s, kap = c['s'], c['kap']
        n = c['grow'] * s
        prof = REFS[model](n, s, kap)
        args, kw = (n, s, kap), {}
    fn = getattr(Z, model)
    re = n * rw
    want = 2 / re**2 / (prof.mu() + muw)
    k2 = dict(kw)
    if muw:
        k2['muw'] = muw
    eta = float(np.asarray(Z.drain_eta(re, model if c['by_name'] else fn, *args, **k2)).ravel()[0])
    close(eta, want, 1e-6, 0, 'drain_eta')
    try:
        res = Z.back_calc_drain_spacing_from_eta(eta, c['pat'], fn, rw, s, kap, muw)
    except ValueError:
        # the search starts at a spacing of twice the smear zone; for closer drains it may give up (a repository test demands so)
        require(n < 2.3 * np.max(s), 'back_calc_drain_spacing_from_eta raised although n is well beyond the smear zone')
        label('gave up close to the smear zone')
        return False
    sp, re2, n2 = [float(np.asarray(v).ravel()[0]) for v in res]
    close(sp, math.sqrt(math.pi * re**2 / (math.sqrt(3) / 2 if c['pat'][0] in 'tT' else 1.)), 1e-5, 0, 'back calculated spacing')
    close([re2, n2], [re, n], 1e-5, 0, 'back calculated re, n')
    return True


nflow = st.one_of(st.sampled_from([1.2, 1.5, 2.]), logu(1.02, 3))


@CHECK.test(rec(c=pieces(False, False), nf=nflow, nterms=st.sampled_from([20, 20, 60, 150]), re=logu(0.2, 5), iL=logu(0.5, 20), gamw=st.sampled_from([9.81, 10.]), by_name=st.booleans()),
            quick=600, thorough=30000)
def non_darcy(c):
    nf, N = c['nf'], c['nterms']
    s, kap = c['c']['s'], c['c']['kap']
    n = s[-1]
    pk = [k for k in kap]
    p = P.pw_constant(s, pk)

    def tol(kmax):
        return 0.2 * N**(-1. - 1. / nf) * n**(1 - 1 / nf) * kmax**(1 / nf)
    got = float(Z.non_darcy_beta_piecewise_constant(s, pk, nflow=nf, nterms=N))
    want = p.beta(nf)
    close(got, want, 1e-6, tol(max(pk)), 'non_darcy_beta_piecewise_constant')
    if len(s) > 1:
        close(float(Z.non_darcy_beta_piecewise_constant(s[:-1], pk[:-1], n=n, kap_m=pk[-1], nflow=nf, nterms=N)), got, 1e-12, 0, 'n given separately')
    ideal = P.Profile([(1., n, ones)]).beta(nf)
    gi = float(Z.non_darcy_beta_ideal(n, nflow=nf, nterms=N))
    close(gi, ideal, 1e-6, tol(1.), 'non_darcy_beta_ideal')
    s1, k1 = s[0], max(1., pk[0])
    gc = float(Z.non_darcy_beta_constant(n, s1, k1, nflow=nf, nterms=N))
    close(gc, P.constant(n, s1, k1).beta(nf), 1e-6, tol(k1), 'non_darcy_beta_constant')
    # arrays give the same
    for fn, a, g in ((Z.non_darcy_beta_ideal, (), gi), (Z.non_darcy_beta_constant, (s1, k1), gc)):
        arr = fn(np.array([n, n * 2]), *[np.array([v, v]) for v in a], nflow=np.array([nf, nf]), nterms=N)
        close(arr[0], g, 1e-9, 1e-12, fn.__name__ + ' of arrays')
    # eta
    re, iL, gamw = c['re'], c['iL'], c['gamw']
    rw = re / n
    for name, a, k, b in (('non_darcy_beta_ideal', (n,), {}, gi), ('non_darcy_beta_ideal', (), dict(n=n), gi), ('non_darcy_beta_constant', (n, s1, k1), {}, gc)):
        f = name if c['by_name'] else getattr(Z, name)
        e = float(Z.non_darcy_drain_eta(re, iL, gamw, f, *a, nflow=nf, nterms=N, **k))
        close(e, 2 / (re**2 * b**nf * (rw * gamw)**(nf - 1) * nf * iL**(nf - 1)), 1e-10, 0, 'non_darcy_drain_eta')
    return tol(max(pk)) < 0.1 * want


@CHECK.test(rec(c=smear(), nf=grid(1.0002, 1.002, 18)), quick=200, thorough=5000)
def darcy_limit(c):
    """non-Darcian factors tend to the Darcian ones as the exponent tends to one"""
    n, s, kap = c['c']['n'], c['c']['s'], max(1., c['c']['kap'])
    e = c['nf'] - 1
    b = float(Z.non_darcy_beta_ideal(n, nflow=c['nf']))
    close(b, float(Z.mu_ideal(n)), 12 * e * (1 + math.log(n)), 1e-6 + 3 * e, 'beta_ideal near nflow=1')
    b = float(Z.non_darcy_beta_constant(n, s, kap, nflow=c['nf']))
    m = float(Z.mu_constant(n, s, kap))
    close(b, m, 12 * e * (1 + math.log(n * kap)), 1e-6 + 3 * e, 'beta_constant near nflow=1')
    close(float(Z.non_darcy_drain_eta(2., 5., 10., 'non_darcy_beta_constant', n, s, kap, nflow=c['nf'])), 2 / 4. / b**c['nf'] / (2. / n * 10)**e / c['nf'] / 5.**e, 1e-9, 0, 'eta near nflow=1')
    return True
