"""B01: SpecBeam against a Galerkin projection on sin(k*pi*x) done from scratch.

rho*A*w_tt + mu*w_t + k1*w + k3*w**3 + (kf**2*E*I*w_xx)_xx = sum of point loads,  0 < x < 1, w = w_xx = 0 at both ends, at rest before any load acts.
The linear equations are stepped exactly: matrix exponential of the beam together with a generator of the loads.
"""
from harness import *
import fort
import os, io, tempfile, shutil, contextlib, warnings
from scipy.linalg import expm
from scipy.integrate import solve_ivp
import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt
from geotecha.beam_on_foundation.specbeam import SpecBeam
from geotecha.piecewise.piecewise_linear_1d import PolyLine
warnings.simplefilter('ignore')

CHECK = Check('B01', rule='the foundation or beam varies, or several loads act, or a load does not simply cross the beam from x=0 at t=0, or the input is dimensional, or stiffness is cubic', setup=fort.speccon,
              assumptions=['stationary load histories start and end at zero load or cover all output times', 'numerical solution: output starts before any load; cubic stiffness at most linear in x, so that the quadrature points resolve it'])

PROP = st.one_of(st.just(None), st.just(None), st.tuples(st.lists(frac(8), max_size=2), st.lists(num(.3, 3.), min_size=6, max_size=6)))
MOVE = rec(x=st.lists(num(-.5, 0), min_size=1, max_size=3), F=st.lists(num(-1, 2), min_size=3, max_size=3), v=logu(.05, 1.), neg=st.booleans(), off=st.one_of(st.just(0.), num(-.3, .1)), t0=st.one_of(st.just(0.), num(0, 6)), win=st.one_of(st.just(None), st.tuples(num(0, .6), num(.1, .4))))
STAT = rec(x=num(.02, .98), kind=st.sampled_from(['ramp', 'step', 'pulse', 'constant']), a=num(0, 4), d=num(.1, 4), F=num(-2, 2), cyc=st.one_of(st.just(None), st.tuples(num(.2, 9), num(-3, 3))))
BEAM = dict(n=st.integers(1, 7), kf=logu(3e-3, .1), k1=st.one_of(st.just(0.), logu(.05, 30)), mu=st.one_of(st.just(0.), logu(.02, 5)), E=PROP, rho=PROP, I=PROP, A=PROP, k1b=PROP, mub=PROP, F=logu(1e-8, 1e2))
OUT = dict(xs=st.lists(frac(16), min_size=1, max_size=4, unique=True), nt=st.integers(1, 6), tend=num(.5, 9))
DIM = dict(dim=st.sampled_from(['norm', 'norm', 'raw']), Ev=logu(1e5, 1e11), rhov=logu(10, 8000), Av=logu(1e-3, 2), Lv=logu(1, 300))


def pieces(p):
    """[(xa, xb, ya, yb)]"""
    if p is None:
        return [(0., 1., 1., 1.)]
    b = [0.] + sorted(set(v for v in p[0] if .02 < v < .98)) + [1.]
    return [(b[i], b[i + 1], p[1][2 * i], p[1][2 * i + 1]) for i in range(len(b) - 1)]


def polyline(p):
    q = pieces(p)
    return PolyLine([v[0] for v in q], [v[1] for v in q], [v[2] for v in q], [v[3] for v in q])


G0, W0 = np.polynomial.legendre.leggauss(40)
G0, W0 = (G0 + 1) / 2, W0 / 2


def value(p, x):
    out = np.zeros_like(x)
    for a, b, ya, yb in pieces(p):
        s = (x > a) & (x < b)
        out[s] = ya + (yb - ya) * (x[s] - a) / (b - a)
    return out


def points(*props):
    b = sorted(set([0., 1.] + [v[0] for p in props for v in pieces(p)] + [.25, .5, .75]))
    x = np.concatenate([a + (c - a) * G0 for a, c in zip(b, b[1:])])
    return x, np.concatenate([(c - a) * W0 for a, c in zip(b, b[1:])])


class Ref(object):
    def __init__(self, c, k3=0., k3b=None):
        n = c['n']
        self.n = n
        self.b = b = np.pi * np.arange(1, n + 1)
        x, w = points(c['E'], c['rho'], c['I'], c['A'], c['k1b'], c['mub'])
        s = np.sin(b[:, None] * x)
        d = -b[:, None] ** 2 * s
        V = lambda p: value(p, x)
        self.M = (s * w * V(c['rho']) * V(c['A'])) @ s.T
        self.K = c['kf'] ** 2 * (d * w * V(c['E']) * V(c['I'])) @ d.T + c['k1'] * (s * w * V(c['k1b'])) @ s.T
        self.C = c['mu'] * (s * w * V(c['mub'])) @ s.T
        self.Mi = np.linalg.inv(self.M)
        self.k3, self.x, self.w = k3, x, w
        self.S, self.k3v = s, value(k3b, x)
        # each forcing: (ta, tb, kind, data)
        self.loads = []

    def moving(self, x, F, v, off, t0, x0, L):
        for a, p in zip(x, F):
            xt = a + off
            if v > 0:
                ta, tb, c0 = t0 - xt / v, t0 + (L - xt) / v, x0 + xt - v * t0
            else:
                ta, tb, c0 = t0 + xt / v, t0 - (L - xt) / v, x0 + L - xt - v * t0
            self.loads.append((ta, tb, 'm', (p, v, c0)))

    def stationary(self, x, T, Y, cyc):
        for a, b, ya, yb in zip(T, T[1:], Y, Y[1:]):
            if b > a:
                self.loads.append((a, b, 's', (x, a, ya, (yb - ya) / (b - a)) + ((0., 0.) if cyc is None else tuple(cyc))))

    def times(self):
        return sorted(set(t for l in self.loads for t in l[:2]))

    def force(self, t, ta):
        """modal force at t, for loads acting just after ta"""
        f = np.zeros(self.n)
        for a, b, kind, d in self.loads:
            if a <= ta < b:
                if kind == 'm':
                    f += d[0] * np.sin(self.b * (d[1] * t + d[2]))
                else:
                    x, t1, y, m, om, ph = d
                    f += (y + m * (t - t1)) * np.cos(om * t + ph) * np.sin(self.b * x)
        return f

    def solve(self, tvals):
        """modal displacement at each (sorted) time"""
        n = self.n
        ev = self.times()
        grid_ = sorted(set(ev + list(tvals)))
        y = np.zeros(2 * n)
        out = {}
        first = ev[0] if ev else np.inf
        base = np.zeros((2 * n, 2 * n))
        base[:n, n:] = np.eye(n)
        base[n:, :n] = -self.Mi @ self.K
        base[n:, n:] = -self.Mi @ self.C
        for k, ta in enumerate(grid_):
            out[ta] = y[:n].copy()
            if k + 1 == len(grid_) or ta < first:
                continue
            h = grid_[k + 1] - ta
            if self.k3:
                rhs = lambda t, v: np.r_[v[n:], self.Mi @ (self.force(t, ta) - self.K @ v[:n] - self.C @ v[n:] - self.k3 * self.S @ (self.w * self.k3v * (v[:n] @ self.S) ** 3))]
                y = solve_ivp(rhs, (ta, grid_[k + 1]), y, method='DOP853', rtol=1e-9, atol=1e-10 * self.w0).y[:, -1]
                continue
            blocks, g0, inp = [], [], []
            for a, b, kind, d in self.loads:
                if not a <= ta < b:
                    continue
                if kind == 'm':
                    p, v, c0 = d
                    for i in range(n):
                        om = self.b[i] * v
                        th = self.b[i] * (v * ta + c0)
                        blocks.append(np.array([[0, om], [-om, 0]]))      # sin, cos
                        g0.append([np.sin(th), np.cos(th)])
                        col = np.zeros((n, 2))
                        col[i, 0] = p
                        inp.append(col)
                else:
                    x, t1, yv, m, om, ph = d
                    th = om * ta + ph
                    r = yv + m * (ta - t1)
                    # cos, sin, s*cos, s*sin with s = t - ta
                    B = np.array([[0, -om, 0, 0], [om, 0, 0, 0], [1, 0, 0, -om], [0, 1, om, 0]])
                    blocks.append(B)
                    g0.append([np.cos(th), np.sin(th), 0, 0])
                    col = np.zeros((n, 4))
                    col[:, 0] = r * np.sin(self.b * x)
                    col[:, 2] = m * np.sin(self.b * x)
                    inp.append(col)
            m_ = sum(len(b) for b in blocks)
            A = np.zeros((2 * n + m_, 2 * n + m_))
            A[:2 * n, :2 * n] = base
            j = 2 * n
            for b, col in zip(blocks, inp):
                A[j:j + len(b), j:j + len(b)] = b
                A[n:2 * n, j:j + len(b)] = self.Mi @ col
                j += len(b)
            y = (expm(A * h) @ np.concatenate([y] + [np.array(g, float) for g in g0]))[:2 * n]
        return np.array([out[t] for t in tvals])


def history(s, F, tlast):
    a, d = s['a'], s['d']
    f = s['F'] * F
    T, Y = {'ramp': ([a, a + d, a + d + tlast], [0, f, f]), 'step': ([a, a, a + d + tlast], [0, f, f]), 'pulse': ([a, a, a + d, a + d], [0, f, .5 * f, 0]), 'constant': ([0., tlast + 1], [f, f])}[s['kind']]
    return list(map(float, T)), list(map(float, Y))


def setup(c, k3=0., k3b=None, stem=None, **over):
    """reference, keyword arguments, normalised times"""
    ref = Ref(c, k3, k3b)
    c = dict(c)
    F = c['F']
    tn = np.linspace(0, c['tend'], c['nt'] + 1)[1 if c.get('late') else 0:]
    xs = np.array(sorted(c['xs']))
    mx, mF, mv, mo, mt, m0, mL = [[] for _ in range(7)]
    for m in c['moving']:
        x0, L = m['win'] or (0., 1.)
        v = -m['v'] if m['neg'] else m['v']
        f = [F * q for q in m['F'][:len(m['x'])]]
        mx.append(list(m['x'])); mF.append(f); mv.append(v); mo.append(m['off']); mt.append(m['t0']); m0.append(x0); mL.append(L)
        ref.moving(m['x'], f, v, m['off'], m['t0'], x0, L)
    sx, sy, so = [], [], []
    for s in c['stat']:
        T, Y = history(s, F, c['tend'])
        sx.append(s['x']); sy.append((T, Y)); so.append(s['cyc'])
        ref.stationary(s['x'], T, Y, s['cyc'])
    kw = dict(nterms=c['n'], Ebar=polyline(c['E']), rhobar=polyline(c['rho']), Ibar=polyline(c['I']), Abar=polyline(c['A']), k1bar=polyline(c['k1b']), mubar=polyline(c['mub']), implementation=c['imp'], force_calc=True)
    if stem:
        kw.update(file_stem=stem, force_calc=False)
    some = any(m['win'] for m in c['moving'])
    if c['dim'] == 'norm':
        kw.update(kf=c['kf'], k1_norm=c['k1'], mu_norm=c['mu'], tvals_norm=tn, xvals_norm=xs)
        N, q = '_norm', dict(x=1., F=1., v=1., t=1.)
    else:
        E, rho, A, L = c['Ev'], c['rhov'], c['Av'], c['Lv']
        q = dict(x=L, F=E * A, v=np.sqrt(E / rho), t=L / np.sqrt(E / rho))
        kw.update(E=E, rho=rho, A=A, L=L, I=(c['kf'] * L) ** 2 * A, k1=c['k1'] * E * A / L ** 2, mu=c['mu'] * A / np.sqrt(L ** 2 / (rho * E)), tvals=tn * q['t'], xvals=xs * L)
        N = ''
    if mx:
        kw['moving_loads_x' + N] = [[v * q['x'] for v in g] for g in mx]
        kw['moving_loads_Fz' + N] = [[v * q['F'] for v in g] for g in mF]
        kw['moving_loads_v' + N] = [v * q['v'] for v in mv]
        if any(mo):
            kw['moving_loads_offset' + N] = [v * q['x'] for v in mo]
        if any(mt):
            kw['moving_loads_t0' + N] = [v * q['t'] for v in mt]
        if some:
            kw['moving_loads_x0' + N] = [v * q['x'] for v in m0]
            kw['moving_loads_L' + N] = [v * q['x'] for v in mL]
    if sx:
        kw['stationary_loads_x' + N] = [v * q['x'] for v in sx]
        kw['stationary_loads_vs_t' + N] = [PolyLine(np.array(T) * q['t'], np.array(Y) * q['F']) for T, Y in sy]
        if any(v is not None for v in so):
            kw['stationary_loads_omega_phase' + N] = [None if v is None else (v[0] / q['t'], v[1]) for v in so]
    kw.update(over)
    ref.w0 = F / (ref.K[0, 0] + 1e-3) + 0.
    return ref, kw, tn, xs, q


def special(c):
    return bool(c['dim'] == 'raw' or len(c['moving']) + len(c['stat']) > 1 or c['stat'] or any(c[k] for k in ('E', 'rho', 'I', 'A', 'k1b', 'mub')) or any(m['win'] or m['neg'] or m['t0'] or m['off'] or len(m['x']) > 1 for m in c['moving']))


def quiet():
    return contextlib.redirect_stdout(io.StringIO())


ANA = rec(moving=st.lists(MOVE, max_size=2), stat=st.lists(STAT, max_size=2), imp=st.sampled_from(['scalar', 'vectorized', 'fortran']), late=st.booleans(), zero=st.sampled_from([None, {'k3': 0}, {'k3_norm': 0}, {'k3': 0, 'k3_norm': 0}]), again=st.booleans(), **dict(BEAM, **dict(OUT, **DIM)))


@CHECK.test(ANA, quick=500, thorough=15000)
def analytical(c):
    """closed form solution in time, every combination of beam, foundation and loads"""
    if not c['moving'] and not c['stat']:
        return False
    ref, kw, tn, xs, q = setup(c)
    if c['zero'] and not (c['dim'] == 'norm' and 'k3' in c['zero'] and 'k3_norm' not in c['zero']):
        kw.update(c['zero'])
    a = SpecBeam(use_analytical=True, **kw)
    close(a.tvals_norm, tn, 1e-12, 1e-12, 'normalised times')
    close(a.xvals_norm, xs, 1e-12, 1e-12, 'normalised places')
    a.runme()
    if c['again']:
        a.runme()
    qs = ref.solve(list(tn))
    want = np.sin(xs[:, None] * ref.b) @ qs.T
    # largest response the loads can give, so that a beam still at rest is not compared with itself
    sc = max(np.max(np.abs(qs)), 1e-4 * c['F'])
    close(np.atleast_2d(a.defl_norm), want, 1e-6, 0, 'deflection, %d terms, %s, loads %r %r' % (c['n'], c['imp'], [m['v'] for m in c['moving']], [s['kind'] for s in c['stat']]), scale=sc)
    if c['dim'] == 'raw':
        close(np.atleast_2d(a.defl), want * c['Lv'], 1e-6, 0, 'dimensional deflection', scale=sc * c['Lv'])
        label('dimensional input')
    if any(s['cyc'] for s in c['stat']):
        label('cyclic stationary load')
    if any(m['win'] for m in c['moving']):
        label('load on part of the beam')
    return special(c) and np.max(np.abs(want)) > 1e-6 * sc


NUM = rec(moving=st.lists(MOVE, max_size=2), stat=st.lists(STAT, max_size=1), imp=st.sampled_from(['scalar', 'vectorized', 'fortran']), nl=st.sampled_from([0., 0., .1, 1., 4.]), k3b=st.one_of(st.just(None), st.tuples(st.just([]), st.lists(num(.3, 3.), min_size=6, max_size=6))), nq=st.integers(24, 44), quadpack=st.sampled_from([False] * 9 + [True]), wait=st.sampled_from([0., 0., 0., 15., 60.]),
          entry=st.sampled_from(['runme', 'calulate_qk', 'calulate_qk_other']), sl=st.sampled_from([None, (1, None, None), (None, -1, None), (None, None, 2)]), **dict(BEAM, **dict(OUT, **DIM)))


@CHECK.test(NUM, quick=90, thorough=2500)
def numerical(c):
    """numerical solution in time, linear and cubic foundations, loads that arrive late"""
    if not c['moving'] and not c['stat']:
        return False
    c = dict(c)
    c['n'] = min(c['n'], 4)
    c['F'] = min(max(c['F'], 1e-7), 1e-2)
    c['nt'] = max(2, c['nt'])
    if c['quadpack']:
        c.update(n=min(c['n'], 2), nt=2, tend=min(c['tend'], 1.), wait=0)
    # start from rest: every load arrives after the first output time
    c['moving'] = [dict(m) for m in c['moving']]
    c['stat'] = [dict(s) for s in c['stat']]
    for m in c['moving']:
        m['t0'] = max(0., m['t0'] + (.31 / m['v'] if m['off'] > 0 else 0)) + c['wait']
    for s in c['stat']:
        s['a'] += c['wait'] if s['kind'] != 'constant' else 0
    c['tend'] += c['wait']
    # cubic stiffness relative to the linear stiffness at a typical deflection
    lin = Ref(c)
    ks = np.linalg.eigvalsh(lin.K)[0] * 2 + .02
    w0 = 3 * c['F'] / ks
    k3 = c['nl'] * ks / w0 ** 2
    ref, kw, tn, xs, q = setup(c, k3, c['k3b'])
    ref.w0 = w0
    kw['nquad'] = None if c['quadpack'] else c['nq']
    kw['k3bar'] = polyline(c['k3b'])
    if c['dim'] == 'raw':
        kw['k3'] = k3 * c['Ev'] * c['Av'] / c['Lv'] ** 4
    else:
        kw['k3_norm'] = k3
    a = SpecBeam(use_analytical=False, **kw)
    qs = ref.solve(list(tn))
    want = np.sin(xs[:, None] * ref.b) @ qs.T
    sc = max(np.max(np.abs(qs)), 1e-2 * w0)
    # undamped nonlinear vibration amplifies rounding and quadrature errors
    tol = 2e-4 if not c['nl'] else 1e-3 if c['mu'] > .2 else 1e-2
    tight = dict(rtol=1e-8, mxstep=50000)
    if c['entry'] == 'runme':
        a.runme()
        got = np.atleast_2d(a.defl_norm)
        close(got, want, tol, 0, 'deflection, %d terms, cubic %r' % (c['n'], c['nl']), scale=sc)
        if c['dim'] == 'raw':
            close(np.atleast_2d(a.defl), got * c['Lv'], 1e-12, 0, 'dimensional deflection', scale=sc * c['Lv'])
    else:
        t = tn
        if c['entry'] == 'calulate_qk_other':       # other times than those the beam was made with
            t = np.linspace(0, c['tend'] * .9, c['nt'] + 3)
            qs = ref.solve(list(t))
            want = np.sin(xs[:, None] * ref.b) @ qs.T
        if c['dim'] == 'raw':
            a.calulate_qk(t=t * q['t'], **tight)
        else:
            a.calulate_qk(t_norm=t, **tight)
        close(a.t_norm, t, 1e-12, 1e-12, 't_norm')
        close(a.qsol[:, :c['n']], qs, tol, 0, 'Galerkin coefficients', scale=sc)
        s = slice(None) if c['sl'] is None else slice(*c['sl'])
        got = a.wofx(x_norm=xs, **({} if c['sl'] is None else dict(tslice=s)))
        close(np.atleast_2d(got), want[:, s], tol, 0, 'deflection', scale=sc)
        if c['dim'] == 'raw':
            close(np.atleast_2d(a.wofx(x=xs * q['x'], tslice=s, normalise_w=False)), np.atleast_2d(got) * c['Lv'], 1e-9, 1e-9 * sc * c['Lv'], 'dimensional deflection')
    label('cubic' if c['nl'] else 'linear')
    if c['wait']:
        label('long wait before the load')
    return (special(c) or c['nl'] > 0) and np.max(np.abs(want)) > 1e-6 * sc


FILES = rec(moving=st.lists(MOVE, min_size=1, max_size=2), stat=st.lists(STAT, max_size=2), imp=st.just('vectorized'), scale=num(1.5, 4), lim=st.sampled_from([None, (0, 1), (.2, .7)]), norm=st.booleans(), frames=st.lists(st.integers(0, 5), min_size=1, max_size=3), draw=st.sampled_from([False, False, True]), **dict(BEAM, **dict(OUT, **DIM)))


@CHECK.test(FILES, quick=120, thorough=2000)
def files_and_views(c):
    """saved deflection is what a second beam loads, force_calc ignores it; deflection under the axles; plots and animation frames"""
    c = dict(c)
    c['nt'] = max(2, c['nt'])
    c['xs'] = sorted(set(c['xs']) | {0., .5, 1.})
    d = tempfile.mkdtemp(prefix='b01')
    try:
        with quiet():
            stem = os.path.join(d, 'beam')
            ref, kw, tn, xs, q = setup(c, stem=stem)
            raw = c['dim'] == 'raw'
            a = SpecBeam(use_analytical=True, **kw)
            a.runme()
            require(os.listdir(d) == [], 'nothing written before saveme')
            a.saveme()
            require(sorted(os.listdir(d)) == sorted(['beam_defl_norm.csv'] + (['beam_defl.csv'] if raw else [])), 'files %r' % (os.listdir(d),))
            sc = np.max(np.abs(a.defl_norm)) + 1e-300
            # the same input with other loads: the file is loaded unless calculation is forced
            name = 'moving_loads_Fz' + ('' if raw else '_norm')
            kw2 = dict(kw)
            kw2[name] = [[v * c['scale'] for v in g] for g in kw[name]]
            b = SpecBeam(use_analytical=True, **kw2)
            b.runme()
            close(b.defl_norm, a.defl_norm, 1e-12, 1e-12 * sc, 'loaded deflection')
            if raw:
                close(b.defl, a.defl, 1e-12, 1e-12 * sc * c['Lv'], 'loaded dimensional deflection')
                g = np.genfromtxt(stem + '_defl.csv', delimiter=',', skip_header=1)
                close(np.atleast_2d(g)[:, 2:], a.defl, 1e-12, 1e-12 * sc * c['Lv'], 'dimensional file')
                close(np.atleast_2d(g)[:, 1], a.xvals, 1e-12, 1e-12, 'x in dimensional file')
                with open(stem + '_defl.csv') as f:
                    close([float(v) for v in f.readline().split(',')[2:]], a.tvals, 1e-12, 1e-12, 'times in dimensional file')
            kw2['force_calc'] = True
            f = SpecBeam(use_analytical=True, **kw2)
            f.runme()
            if not c['stat']:
                close(f.defl_norm, a.defl_norm * c['scale'], 1e-9, 1e-9 * sc, 'forced calculation with larger loads')
            # under each axle
            a.defl_vs_time_under_loads(**({} if c['lim'] is None else dict(xlim_norm=c['lim'])))
            lo, hi = c['lim'] or (0, 1)
            require(len(a.moving_load_w_norm) == len(c['moving']), 'one array for each vehicle')
            for i, m in enumerate(c['moving']):
                x0, L = m['win'] or (0., 1.)
                got = a.moving_load_w_norm[i]
                require(got.shape == (len(m['x']), len(tn)), 'one row for each axle')
                for j, xa in enumerate(m['x']):
                    xt = xa + m['off']
                    pos = x0 + xt + m['v'] * (tn - m['t0']) if not m['neg'] else x0 + L - xt - m['v'] * (tn - m['t0'])
                    for k in range(len(tn)):
                        if min(abs(pos[k] - lo), abs(pos[k] - hi)) < 1e-9:
                            continue
                        if lo < pos[k] < hi:
                            close(got[j, k], np.interp(pos[k], xs, a.defl_norm[:, k]), 1e-9, 1e-6 * sc, 'deflection under axle')
                        else:
                            require(np.isnan(got[j, k]), 'axle is not in sight')
                if raw:
                    close(np.nan_to_num(a.moving_load_w[i]), np.nan_to_num(got) * c['Lv'], 1e-12, 0, 'dimensional deflection under axle', scale=sc * c['Lv'])
            if c['draw']:
                views(c, a, tn, xs, q, c['norm'] or not raw)
    finally:
        plt.close('all')
        shutil.rmtree(d)
    return True


def views(c, a, tn, xs, q, norm):
    L, T, P, defl = (1., 1., 1., a.defl_norm) if norm else (c['Lv'], q['t'], q['F'], a.defl)
    ax = a.plot_w_vs_x_overtime(norm=norm)
    lines = ax.get_lines()
    require(len(lines) == len(tn), 'one line for each time')
    for k, l in enumerate(lines):
        close(l.get_xdata(), xs * L, 1e-12, 1e-12, 'x plotted')
        close(l.get_ydata(), defl[:, k], 1e-12, 0, 'deflection plotted')
    plt.close('all')
    if np.max(np.abs(defl)) == 0 or np.min(defl) == np.max(defl):
        return
    an = a.animateme(norm=norm)
    fig = plt.gcf()
    tm = tn * T
    sx = sorted(set(s['x'] for s in c['stat']))
    for k in c['frames']:
        k %= len(tn)
        art = an._func(k)
        arrows = [v for v in art if isinstance(v, matplotlib.text.Annotation)]
        curves = [v for v in art if isinstance(v, matplotlib.lines.Line2D)]
        ys = [defl[:, k], np.max(defl[:, :k + 1], axis=1), np.min(defl[:, :k + 1], axis=1)]
        require(len(curves) == 3, 'deflection and envelopes')
        for cv in curves:
            close(cv.get_xdata(), xs * L, 1e-12, 1e-12, 'x drawn')
        rest = [np.array(cv.get_ydata()) for cv in curves]
        for y in ys:
            hit = [i for i, r in enumerate(rest) if np.allclose(r, y, rtol=1e-12, atol=0)]
            require(hit, 'a curve for the deflection and its envelopes')
            rest.pop(hit[0])
        # arrow heads on the beam; stationary loads at one place are added up
        want = []
        for m in c['moving']:
            x0, W = m['win'] or (0., 1.)
            for xa, f in zip(m['x'], m['F']):
                xt = xa + m['off']
                want.append((L * (x0 + xt + m['v'] * (tn[k] - m['t0']) if not m['neg'] else x0 + W - xt - m['v'] * (tn[k] - m['t0'])), f * c['F'] * P))
        for x in sx:
            tot = 0
            for s in c['stat']:
                if s['x'] == x:
                    Tt, Y = history(s, c['F'], c['tend'])
                    if any(abs(tn[k] - v) < 1e-9 for v in Tt):
                        return
                    v = np.interp(tn[k], Tt, Y, left=0) if s['kind'] != 'constant' else Y[0]
                    tot += v * (1 if s['cyc'] is None else np.cos(s['cyc'][0] * tn[k] + s['cyc'][1]))
            want.append((x * L, tot * P))
        got = [(v.xyann[0], v.xyann[1]) for v in arrows]
        for w in want:
            hit = [i for i, g in enumerate(got) if np.isclose(g[0], w[0], rtol=1e-6, atol=1e-9 * L) and np.isclose(g[1], w[1], rtol=1e-6, atol=1e-9 * c['F'] * P)]
            require(hit, 'no arrow for the load %r at %r: %r' % (w[1], w[0], got))
            got.pop(hit[0])
        require(all(g[1] == 0 or g[1] != g[1] for g in got), 'arrow without a load: %r' % (got,))
        label('animation frame')


@CHECK.test(rec(BC=st.sampled_from(['CC', 'FF', 'XX', '']), ana=st.booleans(), k3=st.sampled_from([None, 0, 0., 2.]), k3n=st.sampled_from([None, 0, 3.]), seed=st.integers(0, 99)), quick=60, thorough=300)
def refused(c):
    """other boundary conditions, and a closed form with cubic stiffness, are refused"""
    kw = dict(nterms=3, kf=.1, k1_norm=1., mu_norm=.1, moving_loads_x_norm=[[0.]], moving_loads_Fz_norm=[[1.]], moving_loads_v_norm=[.2], tvals_norm=np.array([0., 1.]), xvals_norm=np.array([.5]), force_calc=True, L=1., E=1., A=1.)
    raises(ValueError, lambda: SpecBeam(BC=c['BC'], use_analytical=c['ana'], **kw), 'boundary condition %r' % c['BC'])
    if (c['k3'] or 0) or (c['k3n'] or 0):
        raises(ValueError, lambda: SpecBeam(use_analytical=True, k3=c['k3'], k3_norm=c['k3n'], **kw), 'closed form with k3=%r, k3_norm=%r' % (c['k3'], c['k3n']))
        return True
    a = SpecBeam(use_analytical=True, k3=c['k3'], k3_norm=c['k3n'], **kw)
    require(a.k3_norm == 0, 'no cubic stiffness')
    return True
