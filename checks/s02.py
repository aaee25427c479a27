"""S02: time integrals of piecewise-linear (cyclic) loads against composite Gauss quadrature."""
from harness import *
from pwl import points, place, positions
import fort
import geotecha.speccon.integrals as sp
from geotecha.piecewise.piecewise_linear_1d import PolyLine

CHECK = Check('S02', rule='an output time lies inside or after a sloping or stepped part of the load history', setup=fort.speccon,
              assumptions=['decay rate times segment length between 1e-3 and 1e3 (closed forms lose digits outside)', 'load histories start no earlier than t=0'])
XG, WG = np.polynomial.legendre.leggauss(20)


def quad(f, a, b, rate):
    """composite Gauss of f over [a, b]"""
    if b <= a:
        return 0.
    n = min(4000, int(rate * (b - a) / 4) + 1)
    e = np.linspace(a, b, n + 1)
    x = ((e[:-1] + e[1:])[:, None] / 2 + (e[1] - e[0]) / 2 * XG).ravel()
    w = np.tile((e[1] - e[0]) / 2 * WG, n)
    return np.sum(w * f(x))


def history(p):
    return np.array([q[0] for q in p], float), np.array([q[1] for q in p], float)


def oracle(kind, p, om, ph, lam, t):
    """integral from the start of the data to t"""
    x, y = history(p)
    tot = 0.
    for (x0, y0), (x1, y1) in zip(p[:-1], p[1:]):
        if x0 == x1:
            if kind[0] == 'D' and x0 <= t:
                f = math.cos(om * x0 + ph) if kind == 'Dcos' else 1.
                tot += (y1 - y0) * f * math.exp(-lam * (t - x0))
            continue
        b = min(t, x1)
        if b <= x0:
            continue
        a = max(x0, b - 60. / lam) if lam * (t - b) < 700 else b
        s = (y1 - y0) / (x1 - x0)
        ld = lambda u: y0 + s * (u - x0)
        g = {'lin': ld, 'Dlin': lambda u: s + 0 * u,
             'cos': lambda u: ld(u) * np.cos(om * u + ph),
             'sin': lambda u: ld(u) * np.sin(om * u + ph),
             'Dcos': lambda u: s * np.cos(om * u + ph) - om * ld(u) * np.sin(om * u + ph)}[kind]
        tot += quad(lambda u: g(u) * np.exp(-lam * (t - u)), a, b, lam + om)
    return tot


KINDS = dict(lin=(sp.Eload_linear, sp.pEload_linear), Dlin=(sp.EDload_linear, sp.pEDload_linear),
             cos=(sp.Eload_coslinear, sp.pEload_coslinear), sin=(sp.Eload_sinlinear, sp.pEload_sinlinear), Dcos=(sp.EDload_coslinear, sp.pEDload_coslinear))

load = points(max_n=6, xlo=0, xhi=2, ylo=-3, yhi=3)
times = st.lists(st.one_of(st.integers(0, 12), grid(0, 1, 32), grid(0, 1, 5000)), min_size=1, max_size=5)


@CHECK.test(rec(p=load, t=times, eigs=st.lists(logu(0.02, 60), min_size=1, max_size=4), dT=st.sampled_from([1.0, 1.0, 0.25, 2.5]), kind=st.sampled_from(sorted(KINDS)),
                om=logu(0.05, 20), ph=num(-3, 3, 12, 1000), pl=st.booleans()), quick=2500, thorough=100000)
def loads(c):
    p = c['p']
    x, y = history(p)
    tv = np.array(sorted(set(max(0., v) for v in place(p, c['t'], beyond=0.5))))
    eigs = np.array(c['eigs'])
    dT = c['dT']
    k = c['kind']
    fn, pfn = KINDS[k]
    trig = k in ('cos', 'sin', 'Dcos')
    om, ph = c['om'], c['ph']
    want = np.array([[oracle(k, p, om, ph, dT * e, t) for e in eigs] for t in tv])
    args = (x, y) + ((om, ph) if trig else ()) + (eigs, tv, dT)
    snap = snapshot(*args)
    scale = (np.abs(y).max() + 0.1) * max(1, tv.max() - x[0]) * (om if k == 'Dcos' else 1)
    for impl in ('scalar', 'vectorized', 'fortran'):
        got = np.asarray(fn(*args, implementation=impl))
        require(np.all(np.abs(got.imag) < 1e-9 * scale + 1e-12), '%s %s: imaginary result for real input' % (k, impl))
        close(got.real, want, 1e-7, 0, '%s (%s)' % (k, impl), scale=scale * 0.1)
    same_snapshot(snap, *args)
    if c['pl']:
        pargs = (PolyLine(x, y),) + ((om, ph) if trig else ()) + (eigs, tv, dT)
        close(np.asarray(pfn(*pargs)).real, want, 1e-7, 0, 'p ' + k, scale=scale * 0.1)
    if dT == 1.0:
        close(np.asarray(fn(*args[:-1])).real, want, 1e-7, 0, k + ' with default dT', scale=scale * 0.1)
    label(k)
    return any(q0[0] <= t and q0[1] != q1[1] for q0, q1 in zip(p[:-1], p[1:]) for t in tv)


@CHECK.test(rec(p=load, t=times, e=st.lists(st.tuples(logu(0.05, 20), num(-5, 5, 20, 1000)), min_size=1, max_size=3), kind=st.sampled_from(['lin', 'cos', 'sin']), om=logu(0.05, 20), ph=num(-3, 3, 12, 1000)),
            quick=500, thorough=20000)
def complex_decay_rates(c):
    """the un-differentiated load integrals accept complex rates (beam program)"""
    p = c['p']
    x, y = history(p)
    tv = np.array(sorted(set(max(0., v) for v in place(p, c['t'], beyond=0.5))))
    eigs = np.array([complex(a, b) for a, b in c['e']])
    om, ph = c['om'], c['ph']
    if any(abs(abs(z.imag) - om) < 0.05 and abs(z.real) < 0.5 for z in eigs):
        return False
    k = c['kind']
    want = np.zeros((len(tv), len(eigs)), complex)
    for i, t in enumerate(tv):
        for j, lam in enumerate(eigs):
            for (x0, y0), (x1, y1) in zip(p[:-1], p[1:]):
                b = min(t, x1)
                if x0 == x1 or b <= x0:
                    continue
                ld = lambda u: y0 + (y1 - y0) / (x1 - x0) * (u - x0)
                g = {'lin': lambda u: 1., 'cos': lambda u: np.cos(om * u + ph), 'sin': lambda u: np.sin(om * u + ph)}[k]
                a = max(x0, b - 60. / lam.real)
                want[i, j] += quad(lambda u: ld(u) * g(u) * np.exp(-lam * (t - u)), a, b, abs(lam) + om)
    args = (x, y) + ((om, ph) if k != 'lin' else ()) + (eigs, tv)
    scale = (np.abs(y).max() + 0.1) * max(1, tv.max() - x[0])
    for impl in ('scalar', 'vectorized', 'fortran'):
        got = np.asarray(KINDS[k][0](*args, implementation=impl))
        close(got, want, 1e-7, 0, '%s complex rates (%s)' % (k, impl), scale=scale * 0.1)
    return True


@CHECK.test(rec(p=load, q=load, eigs=st.lists(logu(0.02, 60), min_size=1, max_size=3), kind=st.sampled_from(sorted(KINDS)), om=logu(0.05, 20), ph=num(-3, 3, 12, 1000),
                s=num(-3, 3, 12, 600), cut=grid(0.05, 0.95, 18), t=times), quick=600, thorough=30000)
def relations(c):
    """scaling, splitting a segment at an interior point, and shifting time"""
    k = c['kind']
    fn = KINDS[k][0]
    trig = k in ('cos', 'sin', 'Dcos')
    p = c['p']
    eigs = np.array(c['eigs'])
    x, y = history(p)
    tv = np.array(sorted(set(max(0., v) for v in place(p, c['t'], beyond=0.5))))
    run = lambda x, y, tv, ph=c['ph']: np.asarray(fn(*((x, y) + ((c['om'], ph) if trig else ()) + (eigs, tv)))).real
    base = run(x, y, tv)
    scale = (np.abs(y).max() + 0.1) * max(1, tv.max() - x[0]) * (c['om'] if k == 'Dcos' else 1)
    close(run(x, c['s'] * y, tv), c['s'] * base, 1e-7, 0, k + ': scaled load', scale=scale * max(1, abs(c['s'])))
    # inserting a point on a segment changes nothing (thin slivers avoided)
    i = max(range(len(p) - 1), key=lambda j: x[j + 1] - x[j])
    f = c['cut']
    xn, yn = x[i] + f * (x[i + 1] - x[i]), y[i] + f * (y[i + 1] - y[i])
    x2, y2 = np.insert(x, i + 1, xn), np.insert(y, i + 1, yn)
    close(run(x2, y2, tv), base, 1e-6, 0, k + ': point inserted on a segment', scale=scale)
    # delaying the load (and the output) by d
    d = 0.75
    close(run(x + d, y, tv + d, c['ph'] - c['om'] * d), base, 1e-6, 0, k + ': delayed load', scale=scale)
    # phase shifts: cos(a + pi) = -cos(a)
    if trig:
        close(run(x, y, tv, c['ph'] + math.pi), -base, 1e-6, 0, k + ': phase + pi', scale=scale)
    if k == 'sin':
        g = np.asarray(sp.Eload_coslinear(x, y, c['om'], c['ph'] - math.pi / 2, eigs, tv)).real
        close(base, g, 1e-6, 0, 'sin is cos delayed by pi/2', scale=scale)
    return True
