"""M01: smear-zone mu is the equal-strain integral over the permeability profile."""
from smear import *
import smear as P
import geotecha.consolidation.smear_zones as Z

CHECK = Check('M01', rule='there is a smear zone (s > 1) with permeability different from the undisturbed one',
              assumptions=['kap is exactly 1 or at least 1 % away from 1 (neighbouring kap of piecewise-linear zones: 3 %); closer values suffer cancellation, see the known finding',
                           'parabolic smear zones have kap >= 1 (the documented profile)'])
TOL = 2e-7


def scal(v):
    v = np.asarray(v)
    require(v.size == 1, 'scalar arguments gave %r' % (v,))
    return float(v.ravel()[0])


def many(fn, cs, one):
    """array arguments: same as element by element"""
    keys = ('n', 's', 'kap')
    got = fn(*[np.array([c[k] for c in cs]) for k in keys])
    close(np.asarray(got, float), [one(c) for c in cs], 1e-12, 1e-12, fn.__name__ + ' of arrays')


@CHECK.test(st.lists(smear(), min_size=1, max_size=3), quick=1200, thorough=60000)
def constant_linear(cs):
    for c in cs:
        n, s, kap = c['n'], c['s'], c['kap']
        close(scal(Z.mu_constant(n, s, kap)), P.constant(n, s, kap).mu(), TOL, 1e-10, 'mu_constant')
        close(scal(Z.mu_linear(n, s, kap)), P.linear(n, s, kap).mu(), TOL, 1e-10, 'mu_linear')
        if s == 1 or kap == 1:
            label('no smear')
            close(scal(Z.mu_ideal(n)), P.Profile([(1., n, ones)]).mu(), TOL, 1e-10, 'mu_ideal')
        if s == kap:
            label('s == kap')
        if s == n:
            label('s == n')
    many(Z.mu_constant, cs, lambda c: scal(Z.mu_constant(c['n'], c['s'], c['kap'])))
    many(Z.mu_linear, cs, lambda c: scal(Z.mu_linear(c['n'], c['s'], c['kap'])))
    return any(c['s'] > 1 and c['kap'] != 1 for c in cs)


@CHECK.test(st.lists(smear(), min_size=1, max_size=3), quick=800, thorough=60000)
def parabolic(cs):
    cs = [c for c in cs if c['kap'] >= 1]
    for c in cs:
        n, s, kap = c['n'], c['s'], c['kap']
        close(scal(Z.mu_parabolic(n, s, kap)), P.parabolic(n, s, kap).mu(), 1e-6, 1e-10, 'mu_parabolic')
        if abs(kap * (2 * s - 1) / s**2 - 1) < 1e-9:
            label('A == B')
    if cs:
        many(Z.mu_parabolic, cs, lambda c: scal(Z.mu_parabolic(c['n'], c['s'], c['kap'])))
    return any(c['s'] > 1 and c['kap'] != 1 for c in cs)


@CHECK.test(st.lists(rec(n=ns, f=st.one_of(fr, grid(1, 3, 400)), kap=kaps), min_size=1, max_size=3), quick=1200, thorough=60000)
def overlapping(cs):
    for c in cs:
        n = c['n']
        s = c['s'] = max(1., round(1 + (n - 1) * c['f'], 4))
        if abs(s - 1) < 0.02:
            s = c['s'] = 1.
        label('no smear' if s == 1 else 'normal' if s < n else 'touching' if s == n else 'overlapping' if 2 * n - s > 1 else 'fully disturbed')
        # nearly fully disturbed: kapx is close to 1
        sx, kapx = 2 * n - s, 1 + (c['kap'] - 1) / max(s - 1, .02) * (2 * n - s - 1)
        tol = TOL if abs(kapx - 1) > 0.01 or kapx == 1 else 1e-3
        close(scal(Z.mu_overlapping_linear(n, s, c['kap'])), P.overlapping(n, s, c['kap']).mu(), tol, 1e-10, 'mu_overlapping_linear')
        if s > n:
            close(scal(Z._sx(n, s)), sx, 1e-12, 1e-12, '_sx')
            close(scal(Z._kapx(n, s, c['kap'])), kapx, 1e-12, 1e-12, '_kapx')
    many(Z.mu_overlapping_linear, cs, lambda c: scal(Z.mu_overlapping_linear(c['n'], c['s'], c['kap'])))
    return any(c['s'] > 1 and c['kap'] != 1 for c in cs)


def call_forms(fn, c, step):
    """all documented ways of giving the outermost layer"""
    s, k = c['s'], c['kap']
    out = [fn(s, k)]
    if len(s) > 1 + step:
        out.append(fn(s[:-1], k[:-1], n=s[-1], kap_m=k[-1]))
        out.append(fn(np.array(s[:-1]), np.array(k[:-1]), n=s[-1], kap_m=k[-1]))
        if k[-1] == k[-2]:
            label('n given, kap_m omitted')
            out.append(fn(s[:-1], k[:-1], n=s[-1]))
    return out


@CHECK.test(pieces(False, False), quick=1000, thorough=50000)
def piecewise_constant(c):
    want = P.pw_constant(c['s'], c['kap']).mu()
    for g in call_forms(Z.mu_piecewise_constant, c, 0):
        close(scal(g), want, TOL, 1e-10, 'mu_piecewise_constant')
    return len(c['s']) > 1 and len(set(c['kap'])) > 1


@CHECK.test(pieces(True, True), quick=1000, thorough=50000)
def piecewise_linear(c):
    want = P.pw_linear(c['s'], c['kap']).mu()
    for g in call_forms(Z.mu_piecewise_linear, c, 1):
        close(scal(g), want, 1e-6, 1e-10, 'mu_piecewise_linear')
    return len(c['s']) > 2 and len(set(c['kap'])) > 1


@CHECK.test(rec(c=smear(), r=rfr, over=grid(1, 3, 400)), quick=1000, thorough=50000)
def permeability(case):
    c = case['c']
    n, s, kap = c['n'], c['s'], c['kap']
    si = radii(n, case['r'] + [0.])
    forms = [('k_linear', Z.k_linear, P.linear, s)]
    if kap >= 1:
        forms.append(('k_parabolic', Z.k_parabolic, P.parabolic, s))
    forms.append(('k_overlapping_linear', Z.k_overlapping_linear, P.overlapping, s))
    forms.append(('k_overlapping_linear', Z.k_overlapping_linear, P.overlapping, round(1 + (n - 1) * case['over'], 4)))
    for name, fn, ref, ss in forms:
        want = [ref(n, ss, kap).k(t) for t in si]
        for arg in (si, np.array(si)):
            close(np.asarray(fn(n, ss, kap, arg), float), want, 1e-9, 1e-12, name)
        close(scal(fn(n, ss, kap, si[0])), want[0], 1e-9, 1e-12, name + ' scalar')
    return s > 1 and kap != 1


bad_inputs = st.tuples(st.sampled_from(['n', 's', 'kap', 's>n']), smear(), num(0.01, 1, 10, 100))


@CHECK.test(bad_inputs, quick=300, thorough=5000)
def rejects(d):
    """geometry without meaning is an error, not a number"""
    which, c, v = d
    n, s, kap = c['n'], c['s'], c['kap']
    if which == 'n':
        n = s = v
    elif which == 's':
        s = v * 0.99
    elif which == 'kap':
        kap = -v
    else:
        s = n * (1 + v)
    for name in ('mu_constant', 'mu_linear', 'mu_parabolic', 'mu_overlapping_linear'):
        if which == 's>n' and name == 'mu_overlapping_linear':
            continue
        raises(ValueError, lambda: getattr(Z, name)(n, s, kap), '%s with bad %s' % (name, which))
        if name != 'mu_overlapping_linear':
            raises(ValueError, lambda: getattr(Z, name.replace('mu_', 'u_'))(n, s, kap, 1.), '%s with bad %s' % (name.replace('mu', 'u'), which))
    if which == 'kap':
        raises(ValueError, lambda: Z.mu_piecewise_constant([c['n']], [kap]), 'mu_piecewise_constant')
        raises(ValueError, lambda: Z.mu_piecewise_linear([1, c['n']], [1, kap]), 'mu_piecewise_linear')
    return True


# every rule a geometry must satisfy, for every function that takes the geometry
SCAL = {'mu_ideal': 'n', 'mu_constant': 'n s kap s>n', 'mu_linear': 'n s kap s>n', 'mu_parabolic': 'n s kap s>n', 'mu_overlapping_linear': 'n s kap', 'k_linear': 'n s kap s>n si', 'k_parabolic': 'n s kap s>n si',
        'k_overlapping_linear': 'n s kap si', 'u_ideal': 'n si', 'u_constant': 'n s kap s>n si', 'u_linear': 'n s kap s>n si', 'u_parabolic': 'n s kap s>n si', 'mu_well_resistance': 'n',
        'non_darcy_beta_ideal': 'n nflow', 'non_darcy_beta_constant': 'n s kap<1 nflow'}
PIECE = {'mu_piecewise_constant': 's kap order len', 'mu_piecewise_linear': 's kap order len first', 'u_piecewise_constant': 's kap order len si', 'u_piecewise_linear': 's kap order len si',
         'non_darcy_beta_piecewise_constant': 's kap order len nflow', 'non_darcy_u_piecewise_constant': 's kap order len nflow si'}
RULES = [(f, r) for d in (SCAL, PIECE) for f in sorted(d) for r in d[f].split()]


@CHECK.test(rec(rule=st.sampled_from(RULES), c=smear(), v=num(0.01, 1, 5, 100), edge=st.booleans(), p=pieces(False, False), where=st.integers(0, 5), low=st.booleans()), quick=600, thorough=6000)
def rejects_all(d):
    """one broken rule is enough, wherever it is; the same call with the rule kept returns numbers"""
    (name, rule), c, v = d['rule'], d['c'], d['v']
    f = getattr(Z, name)
    def call(bad):
        n, s, kap, nf, si = c['n'], c['s'], max(c['kap'], 1.), 1.2, (1 + c['n']) / 2
        if name in SCAL:
            if bad and rule == 'n':
                n = s = 1. if d['edge'] else v
            elif bad and rule == 's':
                s = v * 0.99
            elif bad and rule == 'kap':
                kap = 0. if d['edge'] else -v
            elif bad and rule == 'kap<1':
                kap = v * 0.99
            elif bad and rule == 's>n':
                s = n * (1 + v)
            elif bad and rule == 'nflow':
                nf = 1. if d['edge'] else v
            elif bad and rule == 'si':
                si = v * .99 if d['low'] else n * (1 + v)
            if bad and rule == 'n' and v >= 1 and not d['edge']:
                n = s = 1. / v
            a = {'mu_ideal': [n], 'mu_well_resistance': [1., 1., n, 1.], 'u_ideal': [n, si, 1.], 'non_darcy_beta_ideal': [n, nf], 'non_darcy_beta_constant': [n, s, kap, nf]}.get(name)
            if a is None:
                a = [n, s, kap] + ([si] if name[0] in 'ku' else []) + ([1.] if name[0] == 'u' else [])
            return f(*a)
        lin = 'linear' in name
        n = [1. + (c['n'] - 1) * x for x in (.2, .5, 1.)]
        s, k = ([1.] + n if lin else n), [1., 2., 1.5]
        k = [1.5] + k if lin else k
        i = d['where'] % len(s)
        if bad and rule == 's':
            s = [1. - v * .9 / 1.01 * (1 - j / 10.) if j <= i else x for j, x in enumerate(s)] if v <= 1 else [.5] + s[1:]
        elif bad and rule == 'kap':
            k[i] = 0. if d['edge'] else -v
        elif bad and rule == 'order':
            i = max(i, 2)
            s[i - 1], s[i] = s[i], s[i - 1]
        elif bad and rule == 'len':
            (k if d['low'] else s).append(c['n'] * 1.5)
        elif bad and rule == 'first':
            s = [x + (s[1] - 1) / 2 if j == 0 else x for j, x in enumerate(s)]
        elif bad and rule == 'nflow':
            nf = 1. if d['edge'] else v
        if bad and rule == 'si':
            si = v * .99 if d['low'] else c['n'] * (1 + v)
        return f(s, k, *([si, 1.] if '_u_' in '_' + name else []), **({'nflow': nf} if 'non_darcy' in name else {}))
    if rule in ('s', 'kap<1') and v * .99 >= 1 or rule == 'nflow' and v > 1 or rule == 'si' and d['low'] and v * .99 >= 1:
        v = 1. / v
    require(np.all(np.isfinite(np.asarray(call(False), dtype=float))), '%s of a valid geometry' % name)
    raises(ValueError, lambda: call(True), '%s with broken rule %r' % (name, rule))
    return True
