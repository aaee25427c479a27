"""K04: Yin and Graham elastic visco-plastic model against its rate equation."""
from harness import *
from scipy.integrate import solve_ivp, quad
from scipy.optimize import brentq
import geotecha.constitutive_models.void_ratio_stress as V

CHECK = Check('K04', quick_scale=2, rule='creep changed the void ratio by at least 1% of psi during the history, or other initial conditions than (e0, estress0) were given',
              assumptions=['stress varies linearly with time within a stress controlled step (documented)', 'piecewise linear rates are approximated by the simulations with constant rates over the sub-intervals',
                           'steps given by void ratio are short enough for the documented fixed point iteration to be a contraction'])

PAR = rec(kap=logu(.005, .1), r=num(1.5, 8), psi_r=logu(.02, .5), siga=st.one_of(logu(5, 100), logu(1e-6, 1e9)), ea=num(.6, 2.5), ta=st.one_of(logu(1e-3, 100), logu(1e-9, 1e9)))
IC = rec(s=num(.4, 3), ocr=num(1, 2.2), give=st.sampled_from(['e0,estress0', 'e0,pstress0', 'e0,t0', 'estress0,pstress0', 'estress0,t0', 'pstress0,t0']))


def params(d):
    lam = d['kap'] * d['r']
    psi = d['kap'] * d['psi_r']
    if (lam - d['kap']) / psi > 40:
        psi = (lam - d['kap']) / 40
    return dict(lam=lam, kap=d['kap'], psi=psi, siga=d['siga'], ea=d['ea'], ta=d['ta'])


def state(p, c):
    """four documented initial values from stress and overconsolidation"""
    s = c['s'] * p['siga']
    alpha = (p['lam'] - p['kap']) / p['psi']
    ocr = min(c['ocr'], 10**(6 / alpha))
    pc = s * ocr
    e = p['ea'] - p['lam'] * math.log(pc / p['siga']) + p['kap'] * math.log(ocr)
    return dict(e0=e, estress0=s, pstress0=pc, t0=p['ta'] * ocr**alpha)


class Ref(object):
    """history of (stress, creep integral) with linear stress steps"""
    def __init__(self, p, ic):
        self.p, self.ic = p, ic
        self.alpha = (p['lam'] - p['kap']) / p['psi']
        self.s, self.I, self.e = ic['estress0'], 0., ic['e0']

    def inc(self, s1, dt):
        a, b, n = self.s / self.ic['estress0'], s1 / self.ic['estress0'], self.alpha + 1
        if abs(b - a) < 1e-3 * a:
            d = (b - a) / a   # series of the mean of (a + (b - a) x)**alpha
            al = self.alpha
            m = a**al * (1 + al * d / 2 + al * (al - 1) * d * d / 6 + al * (al - 1) * (al - 2) * d**3 / 24 + al * (al - 1) * (al - 2) * (al - 3) * d**4 / 120)
        else:
            m = (b**n - a**n) / (n * (b - a))
        return m * dt / self.ic['t0']

    def e_at(self, s1, dt):
        p = self.p
        return self.ic['e0'] - p['kap'] * math.log(s1 / self.ic['estress0']) - p['psi'] * math.log1p(self.I + self.inc(s1, dt))

    def stress(self, s1, dt):
        self.e = self.e_at(s1, dt)
        self.I += self.inc(s1, dt)
        self.s = s1
        return self.e

    def solve(self, e1, dt):
        f = lambda ls: self.e_at(math.exp(ls), dt) - e1
        a = b = math.log(self.s)
        while f(a) < 0:
            a -= .05
        while f(b) > 0:
            b += .05
        return math.exp(brentq(f, a, b, xtol=1e-13)) if b > a else math.exp(a)

    def contraction(self, s1, dt):
        """|d ln(next stress) / d ln(stress)| of the documented iteration at the solution"""
        h = 1e-5
        d = (self.inc(s1 * (1 + h), dt) - self.inc(s1 * (1 - h), dt)) / (2 * h)
        return abs(self.p['psi'] / self.p['kap'] * d / (1 + self.I + self.inc(s1, dt)))


def rate(p, t, e, s, ds):
    """documented rate equation: de/dt for stress s rising at ds"""
    return -p['kap'] * ds / s - p['psi'] / p['ta'] * math.exp(min((e - p['ea']) / p['psi'] + p['lam'] / p['psi'] * math.log(s / p['siga']), 600.))


@CHECK.test(rec(p=PAR, ic=IC, array=st.booleans()), quick=1500, thorough=40000)
def initial_conditions(c):
    """any two of the four give the other two; wrong numbers are refused; arrays = scalars"""
    p = params(c['p'])
    w = state(p, c['ic'])
    names = c['ic']['give'].split(',')
    give = {k: w[k] for k in names}
    if c['array']:
        f = np.array([1., 1.])
        give = {k: v * f for k, v in give.items()}
    snap = snapshot(*[give[k] for k in names])
    m = V.YinAndGrahamSoilModel(**dict(p, **give))
    same_snapshot(snap, *[give[k] for k in names])
    alpha = (p['lam'] - p['kap']) / p['psi']
    for k in w:
        tol = 1e-11 * (1 + max(p['lam'], 1) / p['kap']) * ((1 + alpha) if k == 't0' else 1)
        close(getattr(m, k), w[k] * (np.ones(2) if c['array'] else 1), tol, 1e-13, '%s from %s' % (k, names))
    o = V.YinAndGrahamSoilModel(**p)
    require((o.e0, o.estress0, o.pstress0, o.t0) == (None,) * 4, 'no initial conditions')
    raises(ValueError, lambda: V.YinAndGrahamSoilModel(**dict(p, e0=w['e0'])), 'one initial condition')
    raises(ValueError, lambda: V.YinAndGrahamSoilModel(**dict(p, e0=w['e0'], t0=w['t0'], estress0=w['estress0'])), 'three initial conditions')
    # set later
    e = o.e_from_stress(w['estress0'], pstress=w['pstress0'])
    close([e, o.e0, o.estress0, o.pstress0, o.t0], [w['e0'], w['e0'], w['estress0'], w['pstress0'], w['t0']], 1e-11 * (1 + alpha), 0, 'initialised from stress')
    o = V.YinAndGrahamSoilModel(**p)
    s = float(o.stress_from_e(w['e0']))
    close(s, p['siga'] * math.exp((p['ea'] - w['e0']) / p['lam']), 1e-10 / p['lam'], 0, 'stress on the reference time line')
    close([o.t0, o.pstress0], [p['ta'], s], 1e-12, 0, 'reference time line')
    return names != ['e0', 'estress0']


OPS = st.lists(st.tuples(st.sampled_from(['s', 's', 'hold', 'e', 'relax', 'init', 'crs']), num(-.15, .3), logu(1e-4, 30)), min_size=1, max_size=8)


def new(p, w, array):
    if array:
        return V.YinAndGrahamSoilModel(**dict(p, e0=w['e0'] * np.ones(2), estress0=w['estress0'] * np.ones(2)))
    return V.YinAndGrahamSoilModel(**dict(p, e0=w['e0'], estress0=w['estress0']))


@CHECK.test(rec(p=PAR, ic=IC, ops=OPS, array=st.booleans(), split=st.integers(1, 3)), quick=1500, thorough=40000)
def history(c):
    """any sequence of stress steps, constant stress, void ratio steps and new initial conditions"""
    p = params(c['p'])
    w = state(p, c['ic'])
    m, r = new(p, w, c['array']), Ref(p, w)
    ones = np.ones(2) if c['array'] else np.ones(1)
    twin = new(p, w, False)   # the same history in split steps
    tw = True
    results = []
    crept = False
    drift = 0.               # void ratio steps are solved to a relative stress of 1e-3
    for op, f, dtf in c['ops']:
        e_rate = p['psi'] / r.ic['t0'] * (r.s / r.ic['estress0'])**r.alpha / (1 + r.I)
        dt = dtf * p['psi'] / e_rate    # time in units of the current creep time
        if dt > 1e12 * p['ta'] or dt <= 0:
            continue
        if op == 'init':
            w = state(p, dict(c['ic'], s=c['ic']['s'] * (1 + f)))
            got = m.e_from_stress(w['estress0'] * (ones if c['array'] else 1), pstress=w['pstress0'] * (ones if c['array'] else 1))
            twin.e_from_stress(w['estress0'], pstress=w['pstress0'])
            r = Ref(p, w)
            drift = 0.
            close(got, w['e0'] * (ones if c['array'] else 1), 1e-10, 0, 'initial void ratio')
            continue
        if op == 'crs':
            if c['array']:
                continue
            t = np.array([0., 3 * p['ta']])
            m.CRSS(t, np.array([f, f]) * r.ic['estress0'] / t[-1], min_segments=3, dx=t[-1])
            continue
        if op in ('s', 'hold'):
            s1 = r.s * (1 + (f if op == 's' else 0))
            start = r.s
            e = r.stress(s1, dt)
            got = m.e_from_stress(s1 * (ones if c['array'] else 1), dt=dt)
            tol = 1e-9 + 1e-11 / max(abs(f), 1e-7) * p['psi'] * (1 + r.alpha) + drift
            close(got, e * ones, 0, tol, 'void ratio after stress step %r' % op)
            for k in range(c['split']):
                a = twin.e_from_stress(start + (s1 - start) * (k + 1.) / c['split'] if op == 's' else s1, dt=dt / c['split'])
            close(a, [e], 0, tol * 3 + drift, 'void ratio after %d part steps' % c['split'])
            results.append((got, got.copy()))
        else:
            e1 = r.e + (-f * p['kap'] if op == 'e' else 0)
            s1 = r.solve(e1, dt)
            k = r.contraction(s1, dt)
            ratio = abs(math.log(s1 / r.s))
            if k > .8 or ratio > .5:
                continue     # the iteration need not converge
            try:
                got = m.stress_from_e(e1 * (ones if c['array'] else 1), dt=dt)
            except RuntimeError:
                if k < .3 and ratio < .3:
                    raise
                return False
            drift += p['psi'] * (r.alpha + 1) * 2e-3 * k * p['kap'] / p['psi'] + 1e-9 + p['kap'] * 2.1e-3
            close(got, s1 * ones, 2.1e-3 + 3 * drift / p['kap'], 0, 'stress after void ratio step')
            r.stress(s1, dt)
            twin.e_from_stress(s1, dt=dt)
            results.append((got, got.copy()))
            label('void ratio step')
        crept = crept or math.log1p(r.I) > .01
        # slope while the stress rises
        sd = r.s / max(dt, 1e-300)
        av = m.av_from_stress(r.s, estressdot=sd)
        wa = p['kap'] / r.s + p['psi'] / r.ic['t0'] / sd / (1 + r.I) * (r.s / r.ic['estress0'])**r.alpha
        close(av, wa * np.ones(np.shape(av)), 1e-7 + drift * 10 / p['psi'] * (1 + r.alpha), 0, 'slope')
        close(m.av_from_stress(r.s), p['kap'] / r.s, 1e-12, 0, 'elastic slope')
        require(np.shape(av) == ones.shape, 'shape of slope')
    for a, b in results:
        same_snapshot([b], a, what='earlier result')
    return crept


@CHECK.test(rec(p=PAR, ic=IC, steps=st.lists(st.tuples(num(-.15, .4), logu(.01, 100)), min_size=1, max_size=4)), quick=300, thorough=8000)
def rate_equation(c):
    """stress steps follow the documented rate equation, integrated independently"""
    p = params(c['p'])
    w = state(p, c['ic'])
    m = new(p, w, False)
    e, s = w['e0'], w['estress0']
    n = 0
    for f, dtf in c['steps']:
        e_rate = -rate(p, 0, e, s, 0)
        dt = dtf * p['psi'] / e_rate
        s1 = s * (1 + f)
        # in terms of x = time/dt and y = (e - e_elastic)/psi
        sol = solve_ivp(lambda x, y: [rate(p, 0, y[0], s + (s1 - s) * x, (s1 - s) / dt) * dt], (0, 1), [e], method='LSODA', rtol=1e-10, atol=1e-11 * p['psi'])
        if not sol.success or not np.isfinite(sol.y).all():
            return False
        e, s = float(sol.y[0, -1]), s1
        n += 1
        close(m.e_from_stress(s1, dt=dt), [e], 0, 1e-6 * p['psi'] * n + 1e-9 * abs(e), 'void ratio after step %d against the rate equation' % n)
    return True


@CHECK.test(rec(p=PAR, ic=IC, kind=st.sampled_from(['n', 's']), segs=st.lists(st.tuples(num(-.1, 1), logu(.05, 3)), min_size=1, max_size=3), twice=st.booleans(), array_first=st.booleans()), quick=64, thorough=2500)
def constant_rate(c):
    """CRSN / CRSS: both methods follow the rate equation, repeated runs agree, the model is left as it was"""
    p = params(c['p'])
    w = state(p, dict(c['ic'], ocr=min(c['ic']['ocr'], 1.3)))
    m = new(p, w, False)
    name = m.CRSN if c['kind'] == 'n' else m.CRSS
    tc = p['psi'] / -rate(p, 0, w['e0'], w['estress0'], 0)
    t, rr = [0.], []
    first = max(abs(c['segs'][0][0]), .05)
    for f, d in c['segs']:
        # rate stepwise constant; the durations cause a few kappa of void ratio change
        t += [t[-1], t[-1] + d * tc] if rr else [t[-1] + d * tc]
        v = (f / d) / tc
        rr += [v, v]
    q = np.array(rr) * (-p['kap'] if c['kind'] == 'n' else w['estress0'])
    t = np.array(t)
    snap = snapshot(t, q)
    before = m.av_from_stress(w['estress0'], estressdot=1.)
    try:
        tv, S, E, Q = name(t, q)
    except RuntimeError:
        return False
    same_snapshot(snap, t, q)
    close(m.av_from_stress(w['estress0'], estressdot=1.), before, 1e-13, 0, 'model state after the simulation')
    require(len(tv) == len(S) == len(E) == len(Q), 'lengths')
    # reference
    y, e, s, k = None, w['e0'], w['estress0'], 0
    T = [0.]
    wantS, wantE = {0.: s}, {0.: e}
    for j in range(len(c['segs'])):
        t0, t1 = t[2 * j], t[2 * j + 1]
        v = q[2 * j]
        pts = np.unique(tv[(tv > t0) & (tv <= t1 * (1 + 1e-12))])
        pts = np.minimum(pts, t1)
        if c['kind'] == 's':
            sol = solve_ivp(lambda x, y: [rate(p, 0, y[0], s + v * (x - t0), v)], (t0, t1), [e], t_eval=pts, method='LSODA', rtol=1e-10, atol=1e-12)
            es, ss = sol.y[0], s + v * (pts - t0)
        else:
            def fn(x, y):
                ss_ = math.exp(min(y[0], 50.))
                ee = e + v * (x - t0)
                return [-(v - rate(p, 0, ee, ss_, 0)) / p['kap']]
            sol = solve_ivp(fn, (t0, t1), [math.log(s)], t_eval=pts, method='LSODA', rtol=1e-10, atol=1e-12)
            ss, es = np.exp(sol.y[0]), e + v * (pts - t0)
        if not sol.success:
            return False
        for a, b, d in zip(pts, ss, es):
            wantS[float(a)], wantE[float(a)] = b, d
        s, e = float(ss[-1]), float(es[-1])
    keys = np.array(sorted(wantS))
    near = np.array([keys[np.argmin(abs(keys - x))] for x in tv])
    wS, wE = np.array([wantS[float(x)] for x in near]), np.array([wantE[float(x)] for x in near])
    tolS = 1e-9 if c['kind'] == 's' else .02
    close(S, wS, tolS, 0, 'stress (steps)')
    close(E, wE, 0, 1e-8 * (1 + abs(w['e0'])) if c['kind'] == 'n' else 1e-6 * p['psi'] + 1e-8, 'void ratio (steps)')
    tv2, S2, E2, Q2 = name(t, q, method='odeint')
    close(tv2, tv, 1e-12, 1e-12, 'times')
    close(S2, wS, 2e-4, 0, 'stress (odeint)')
    close(E2, wE, 0, 2e-4 * (p['kap'] + p['psi']) + 1e-6, 'void ratio (odeint)')
    if c['twice']:
        tv3, S3, E3, Q3 = name(t, q)
        close(S3, S, 1e-9, 1e-12, 'stress of a second simulation')
        close(E3, E, 1e-9, 1e-12, 'void ratio of a second simulation')
        m.e_from_stress(w['estress0'] * 1.1, dt=tc)
        tv3, S3, E3, Q3 = name(t, q)
        close(S3, S, 1e-9, 1e-12, 'stress of a simulation after other steps')
        close(E3, E, 1e-9, 1e-12, 'void ratio of a simulation after other steps')
    return True
