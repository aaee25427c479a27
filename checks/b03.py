"""B03: DingEtAl2012 against a Galerkin projection of the beam equation done from scratch.

w_tt + mu*w_t + k1*w + k3*w**3 + kf**2*w_xxxx = Fz*delta(x - v*t)   on 0 < x < 1, at rest at the first time
"""
from harness import *
from scipy.optimize import brentq
from scipy.integrate import solve_ivp
import warnings
from geotecha.beam_on_foundation.dingetal2012 import DingEtAl2012
warnings.simplefilter('ignore')

CHECK = Check('B03', rule='the cubic stiffness matters, or more than one term, or dimensional input', assumptions=['free ends: the documented trial functions (translation and bending shapes)', 'at most four terms where the cubic term is compared (the quadrature points resolve it)'])

GX, GW = np.polynomial.legendre.leggauss(240)
GX, GW = .5 * (GX + 1), .5 * GW


def betas(BC, n):
    if BC == 'SS':
        return np.pi * np.arange(1, n + 1)
    b = [brentq(lambda v: np.cos(v) - 1 / np.cosh(v), (k + .5) * np.pi - .4, (k + .5) * np.pi + .4, xtol=1e-14) for k in range(1, n + 1)]
    return np.array(b if BC == 'CC' else [0.] + b[:-1])


def shape(BC, b, x, d=0):
    """trial function (d=0) or its second derivative (d=2), clamped and free ends in a form without cancellation"""
    x = np.asarray(x, float)
    if BC == 'SS':
        return np.sin(b * x) * (-b * b if d else 1)
    if b == 0:
        return (np.zeros_like(x) if d else np.ones_like(x))
    # decaying exponentials from both ends; A cos + B sin + C exp(-bx) + D exp(-b(1-x))
    e = np.exp(-b)
    # clamped: phi(0)=phi'(0)=phi(1)=phi'(1)=0 ; free: second and third derivatives
    sg = 1 if BC == 'CC' else -1
    # with A = -sg: cosh-like part has coefficient 1 at x=0
    m = np.array([[1., 0, 1, e], [0, 1, -1, e], [np.cos(b), np.sin(b), e, 1], [-np.sin(b), np.cos(b), -e, 1]])
    if BC == 'FF':      # second and third derivatives: trigonometric terms change sign
        m[:, :2] *= -1
    u, s, vt = np.linalg.svd(m)
    A, B, C, D = vt[-1]
    k = {'CC': -1., 'FF': 1.}[BC] / A    # cos coefficient as in the documented functions
    A, B, C, D = A * k, B * k, C * k, D * k
    tr = A * np.cos(b * x) + B * np.sin(b * x)
    ex = C * np.exp(-b * x) + D * np.exp(-b * (1 - x))
    return b * b * (ex - tr) if d else tr + ex


class Ref(object):
    def __init__(self, BC, n, mu, k1, k3, kf, Fz, v):
        self.__dict__.update(BC=BC, n=n, mu=mu, k1=k1, k3=k3, kf=kf, Fz=Fz, v=v)
        self.b = betas(BC, n)
        self.w0 = Fz / (k1 + kf ** 2 * betas(BC, 2)[-1] ** 4)
        self.P = np.array([shape(BC, b, GX) for b in self.b])
        D = np.array([shape(BC, b, GX, 2) for b in self.b])
        self.M = (self.P * GW) @ self.P.T
        self.K = kf ** 2 * (D * GW) @ D.T + k1 * self.M
        self.Mi = np.linalg.inv(self.M)

    def acc(self, q, qd, t):
        w = q @ self.P
        f = -self.K @ q - self.mu * self.M @ qd - self.k3 * self.P @ (GW * w ** 3)
        x = self.v * t
        if 0 <= x <= 1:
            f = f + self.Fz * np.array([shape(self.BC, b, x) for b in self.b])
        return self.Mi @ f

    def solve(self, t):
        n = self.n
        cut = 1 / self.v
        ts = sorted(set([t[0], t[-1]] + ([cut] if t[0] < cut < t[-1] else [])))
        y = np.zeros(2 * n)
        out = {}
        for a, b in zip(ts, ts[1:]):
            inside = [u for u in t if a <= u <= b]
            # just inside the interval so that the load is on, or off, all along
            eps = 1e-12 * b
            s = solve_ivp(lambda u, v: np.r_[v[n:], self.acc(v[:n], v[n:], min(max(u, a + eps), b - eps) if b == cut or a != cut else max(u, a + 1e-9 * b))], (a, b), y, method='DOP853', rtol=1e-9, atol=1e-10 * self.w0, t_eval=sorted(set(inside + [b])))
            for u, c in zip(s.t, s.y.T):
                out[u] = c
            y = s.y[:, -1]
        return np.array([out[u][:n] for u in t])


PAR = dict(BC=st.sampled_from(['SS', 'CC', 'FF']), n=st.integers(1, 4), kf=logu(2e-3, .2), k1=st.one_of(st.just(0.), logu(.05, 40)), mu=st.one_of(st.just(0.), logu(.02, 8)), nl=st.sampled_from([0., .1, 1., 4., 0.]), F=logu(1e-6, 1e-2), v=logu(.03, 1.2), nq=st.integers(26, 42))


def build(c):
    # k3 relative to the linear stiffness at a typical deflection
    ks = c['k1'] + c['kf'] ** 2 * betas(c['BC'], 2)[-1] ** 4
    w0 = c['F'] / ks
    return dict(mu=c['mu'], k1=c['k1'], k3=c['nl'] * ks / w0 ** 2, kf=c['kf'], Fz=c['F'], v=c['v']), w0


def make(c, p, **kw):
    k = dict(BC=c['BC'], nterms=c['n'], v_norm=p['v'], kf=p['kf'], Fz_norm=p['Fz'], mu_norm=p['mu'], k1_norm=p['k1'], k3_norm=p['k3'], nquad=c['nq'])
    k.update(kw)
    return DingEtAl2012(**k)


@CHECK.test(rec(t=st.lists(num(0, 1.4), min_size=1, max_size=3), seed=st.integers(0, 9999), quadpack=st.sampled_from([False, False, False, True]), **PAR), quick=600, thorough=15000)
def equations(c):
    """acceleration of every Galerkin coefficient in any state, while the load is on the beam and after it left"""
    if c['BC'] == 'FF' and c['k1'] == 0 and c['n'] == 1:
        return False
    p, w0 = build(c)
    a = make(c, p, **(dict(nquad=None) if c['quadpack'] else {}))
    ref = Ref(c['BC'], c['n'], **p)
    close(a.beta, ref.b, 1e-6, 1e-6, 'beta')
    r = np.random.RandomState(c['seed'])
    for s in c['t']:
        t = s / c['v']
        if abs(s - 1) < 1e-6:
            continue
        # smooth deflections, so that the quadrature points resolve the cube
        q = w0 * r.uniform(-1, 1, c['n']) / np.arange(1, c['n'] + 1)
        qd = w0 * r.uniform(-1, 1, c['n'])
        keep = q.copy(), qd.copy()
        got = np.array(a.vectorfield(np.r_[q, qd], t))
        want = np.r_[qd, ref.acc(q, qd, t)]
        sc = np.max(np.abs(want)) + c['F'] + abs(p['k3']) * w0 ** 3
        close(got[:c['n']], qd, 1e-13, 0, 'velocity')
        close(got[c['n']:], want[c['n']:], 2e-5, 0, 'acceleration of %s, %d terms, load at %g, nquad %s' % (c['BC'], c['n'], s, a.nquad), scale=sc)
        require(s < 1 or s > 1, '')
        label('load has left' if s > 1 else 'load on beam')
    return c['n'] > 1 or c['nl'] > 0


@CHECK.test(rec(nt=st.integers(2, 12), tend=num(.2, 1.4), xs=st.lists(frac(16), min_size=1, max_size=5), scalar=st.booleans(), dim=st.sampled_from(['norm', 'norm', 'raw', 'mixed']), E=logu(1e6, 1e11), rho=logu(10, 8000), A=logu(1e-3, 2), L=logu(1, 300), sl=st.sampled_from([None, None, (-1, None, None), (0, 4, 2), (1, None, None)]), t0=st.sampled_from([0., 0., 0., .1]), quadpack=st.sampled_from([False] * 7 + [True]), again=st.booleans(), own=st.booleans(), **PAR), quick=90, thorough=2500)
def deflection(c):
    """deflection at every place and time; dimensional and normalised input and output agree"""
    if c['v'] < .05 and c['k1'] > 20:
        c['v'] = .05
    p, w0 = build(c)
    n = c['n']
    if c['quadpack']:
        c['n'] = n = min(n, 2)
        c['nt'] = 2
    tn = np.linspace(c['t0'], c['tend'], c['nt']) / c['v'] * (.2 if c['quadpack'] else 1)
    if any(abs(tn * c['v'] - 1) < 1e-6):
        return False
    nq = dict(nquad=None) if c['quadpack'] else {}
    # with the solver settings of the user or those of the program
    ode = dict(rtol=1e-9, atol=1e-9 * w0, mxstep=200000) if c['own'] else {}
    E, rho, A, L = c['E'], c['rho'], c['A'], c['L']
    I = (c['kf'] * L) ** 2 * A
    raw = dict(E=E, rho=rho, A=A, L=L, I=I, k1=p['k1'] * E * A / L ** 2, k3=p['k3'] * E * A / L ** 4, mu=p['mu'] * A / np.sqrt(L ** 2 / (rho * E)), Fz=p['Fz'] * E * A, v=p['v'] / np.sqrt(rho / E))
    if c['dim'] == 'norm':
        a = make(c, p, **nq)
        a.calulate_qk(t_norm=tn, **ode)
    else:
        k = dict(v_norm=None, kf=None, Fz_norm=None, mu_norm=None, k1_norm=None, k3_norm=None, **nq)
        k.update(raw)
        if c['dim'] == 'mixed':
            k.update(kf=p['kf'], k3_norm=p['k3'], v_norm=p['v'], I=None, v=None, k3=None)
        a = make(c, p, **k)
        for name, v in (('kf', p['kf']), ('v_norm', p['v']), ('Fz_norm', p['Fz']), ('mu_norm', p['mu']), ('k1_norm', p['k1']), ('k3_norm', p['k3'])):
            close(getattr(a, name), v, 1e-12, 0, name)
        t = tn * L * np.sqrt(rho / E)
        if c['again']:      # the last solution counts
            a.calulate_qk(t=t[:2] * .7)
        a.calulate_qk(t=t, **ode)
        close(a.t_norm, tn, 1e-12, 0, 't_norm')
    ref = Ref(c['BC'], n, **p)
    q = ref.solve(list(tn))
    xs = c['xs'][:1] if c['scalar'] else c['xs']
    S = np.array([[shape(c['BC'], b, x) for x in xs] for b in ref.b])
    want = (q @ S).T
    sl = slice(None) if c['sl'] is None else slice(*c['sl'])
    sc = max(np.max(np.abs(q)), 1e-3 * w0)
    kw = {} if c['sl'] is None else dict(tslice=sl)
    xa = xs[0] if c['scalar'] else np.array(xs)
    got = a.wofx(x_norm=xa, **kw)
    want = want[:, sl]
    if len(xs) == 1:
        want = want[0]
    # undamped nonlinear vibration amplifies rounding and quadrature errors
    tol = (2e-4 if c['mu'] > .2 else 1e-2) if c['nl'] else 2e-5
    if not c['own']:
        tol = max(tol, 1e-3)
        label('default solver settings')
    close(got, want, tol, 0, 'deflection of %s, %d terms' % (c['BC'], n), scale=sc)
    close(a.wofx(x_norm=xa, normalise_w=True, **kw), got, 1e-9, 1e-12, 'normalised deflection')
    close(a.qsol[:, :n], q, tol, 0, 'Galerkin coefficients', scale=sc)
    if c['dim'] != 'norm':
        close(a.wofx(x=xa * L, **kw), got, 1e-9, 1e-9 * sc, 'deflection at dimensional distance')
        close(a.wofx(x=xa * L, normalise_w=False, **kw), np.asarray(got) * L, 1e-9, 1e-9 * sc * L, 'dimensional deflection')
        label('dimensional input')
    label(c['BC'])
    return c['nl'] > 0 or n > 1


@CHECK.test(rec(BC=st.sampled_from(['SS', 'CC', 'FF']), n=st.integers(1, 60), nq=st.integers(6, 60), x=st.lists(frac(97), min_size=1, max_size=6), bad=st.sampled_from(['SC', 'ss', None, ''])), quick=400, thorough=6000)
def basis(c):
    """trial functions for any number of terms; quadrature exact for polynomials"""
    a = DingEtAl2012(BC=c['BC'], nterms=c['n'], nquad=c['nq'], v_norm=1., kf=1., Fz_norm=1., mu_norm=1., k1_norm=1., k3_norm=1.)
    b = betas(c['BC'], c['n'])
    close(a.beta, b, 1e-6, 1e-6, 'beta')
    for x in c['x']:
        want = [shape(c['BC'], v, x) for v in b]
        close(a.phi(x, a.beta), want, 1e-5, 1e-5, 'trial functions at %g' % x, scale=1.)
        k = len(b) // 2
        close(a.phi(x, a.beta[k]), want[k], 1e-5, 1e-5, 'trial function at %g' % x, scale=1.)
        q = np.cos(np.arange(c['n']))
        close(a.w(q, x), np.dot(q, want), 1e-5, 1e-5, 'w', scale=c['n'])
    X, W = np.asarray(a.xj), np.asarray(a.Ij)
    require(len(X) == len(W) == c['nq'] and abs(X.min()) < 1e-12 and abs(X.max() - 1) < 1e-12, 'quadrature points')
    close(np.sort(X)[::-1], 1 - np.sort(X), 1e-12, 1e-12, 'symmetric points')
    for k in range(c['nq']):
        close(np.sum(W * X ** k), 1 / (k + 1), 1e-8, 1e-9, 'integral of x**%d with %d points' % (k, c['nq']))
    close(np.sum(W * np.exp(X)), np.e - 1, 3e-5 if c['nq'] < 8 else 1e-7, 0, 'integral of exp')
    raises(ValueError, lambda: DingEtAl2012(BC=c['bad'], nterms=2, nquad=9, v_norm=1., kf=1., Fz_norm=1., mu_norm=1., k1_norm=1., k3_norm=1.), 'boundary condition %r' % c['bad'])
    return c['n'] > 1


@CHECK.test(rec(t=num(.05, .95), k1=logu(.5, 40), kf=logu(.01, .03), F=logu(1e-5, 1e-3), BC=st.sampled_from(['SS', 'CC']), s=st.sampled_from([2., -1., .1]), nt=st.integers(3, 8), nl=st.sampled_from([0., .5])), quick=25, thorough=500)
def limits(c):
    """slow load: static deflection of the beam on its foundation; many terms; linear scaling"""
    v = .01
    om = math.sqrt(c['k1'] + c['kf'] ** 2 * betas(c['BC'], 1)[0] ** 4)
    mu = om
    p = dict(mu=mu, k1=c['k1'], k3=0., kf=c['kf'], Fz=c['F'], v=v * om / 2)
    n = c['nt']
    a = make(dict(BC=c['BC'], n=n, nq=20), p)
    t = np.array([0, c['t'] / p['v']])
    a.calulate_qk(t_norm=t, rtol=1e-8, atol=1e-10 * c["F"] / om ** 2, mxstep=200000)
    b = betas(c['BC'], n)
    x = np.linspace(0, 1, 7)[1:-1]
    S = np.array([shape(c['BC'], k, x) for k in b])
    M = np.array([np.sum(GW * shape(c['BC'], k, GX) ** 2) for k in b])
    want = c['F'] * ((np.array([shape(c['BC'], k, c['t']) for k in b]) / M / (c['k1'] + c['kf'] ** 2 * b ** 4)) @ S)
    sc = c['F'] * np.sum(2 / (c['k1'] + c['kf'] ** 2 * b ** 4))
    close(a.wofx(x_norm=x)[:, -1], want, 0.05, 0, 'slowly moving load', scale=sc)
    p2 = dict(p, Fz=p['Fz'] * c['s'])
    a2 = make(dict(BC=c['BC'], n=n, nq=20), p2)
    a2.calulate_qk(t_norm=t, rtol=1e-8, atol=1e-10 * c["F"] / om ** 2, mxstep=200000)
    close(a2.wofx(x_norm=x)[:, -1], c['s'] * a.wofx(x_norm=x)[:, -1], 1e-4, 0, 'scaled load', scale=sc)
    # no load, no deflection
    p0 = dict(p, Fz=0., k3=1e6)
    a0 = make(dict(BC=c['BC'], n=n, nq=20), p0)
    a0.calulate_qk(t_norm=t * .01)
    close(a0.wofx(x_norm=x), np.zeros((5, 2)), 0, 0, 'unloaded beam')
    return True
