"""C09: consolidation with fractional time derivatives, by an independent Laplace inversion."""
from harness import *
import geotecha.consolidation.cosenzaandkorosak2014 as K
from geotecha.consolidation.terzahi import terzaghi_1d

CHECK = Check('C09', quick_scale=3, rule='a fractional term is present (theta > 0) and 0.02 < u/ui < 0.98 somewhere',
              assumptions=['0 < v < 1', 'inversion tolerance 2e-5 of ui (documented Talbot accuracy) plus the omitted series terms'])

# Weideman & Trefethen (2007) optimal hyperbola
NQ = 34
_h = 1.081792140 / NQ
_w = (np.arange(-NQ, NQ) + 0.5) * _h
_phi = 1.172104229


def invert(F, t):
    mu = 4.492075287 * NQ / t
    s = mu * (1 + np.sin(1j * _w - _phi))
    ds = 1j * mu * np.cos(1j * _w - _phi)
    return float(np.real(np.sum(np.exp(s * t) * F(s) * ds) * _h / (2j * math.pi)))


def B(t, lam, theta, v):
    def F(s):
        a = sum([th * s**(q - 1) for th, q in zip(theta, v)], 1 + 0 * s)
        b = sum([th * s**q for th, q in zip(theta, v)], s + lam)
        return a / b
    return invert(F, t)


pos = logu(0.1, 10)
CASE = rec(Z=st.lists(num(0, 1), min_size=1, max_size=4), T=st.lists(logu(2e-3, 50), min_size=1, max_size=4), Tpor=st.one_of(st.none(), st.lists(logu(2e-3, 50), min_size=1, max_size=4)),
           terms=st.lists(st.tuples(st.one_of(logu(0.01, 5), st.just(0.)), grid(0.05, 0.95, 18)), min_size=1, max_size=3), L=pos, kv=logu(1e-3, 10), mv=pos, gamw=st.sampled_from([10., 9.81]),
           ui=logu(0.1, 100), nterms=st.sampled_from([1, 5, 20, 40]), scalars=st.booleans())


@CHECK.test(CASE, quick=350, thorough=8000)
def solution(c):
    theta, v = [a[0] for a in c['terms']], [a[1] for a in c['terms']]
    L, n, ui = c['L'], c['nterms'], c['ui']
    T1 = L * L * c['mv'] * c['gamw'] / c['kv']
    t = np.array(c['T']) * T1
    tp = None if c['Tpor'] is None else np.array(c['Tpor']) * T1
    z = np.array(c['Z']) * L
    kw = dict(L=L, kv=c['kv'], mv=c['mv'], gamw=c['gamw'], ui=ui, nterms=n)
    # theta acts on real time: scale so that it matters
    theta = [th * T1**(q - 1) for th, q in zip(theta, v)]
    if c['scalars'] and len(theta) == 1:
        a = (float(z[0]), float(t[0]), theta[0], v[0])
        z, t = z[:1], t[:1]
    else:
        a = (z, t, theta, v)
    if tp is not None:
        kw['tpor'] = tp
    s = snapshot(a, tp)
    por, doc = K.cosenzaandkorosak2014(*a, **kw)
    same_snapshot(s, a, tp)
    if tp is None:
        tp = t
    M = (2 * np.arange(n) + 1) * math.pi
    lam = M**2 / T1
    por, doc = np.asarray(por), np.asarray(doc)
    require(por.shape == (len(z), len(tp)), 'shape of por %s' % (por.shape,))
    require(doc.shape == (len(t),), 'shape of doc %s' % (doc.shape,))
    nt = False
    for j, tt in enumerate(tp):
        b = np.array([B(tt, l, theta, v) for l in lam])
        u = np.sin(np.outer(z / L, M)) @ (4 / M * b)
        close(por[:, j] / ui, u, 0, 2e-5, 'pore pressure / ui at t=%g' % tt)
        nt |= bool(((u > .02) & (u < .98)).any())
    for j, tt in enumerate(t):
        b = np.array([B(tt, l, theta, v) for l in lam])
        close(doc[j], 1 - np.sum(8 / M**2 * b), 0, 2e-5, 'degree of consolidation at t=%g' % tt)
    return nt and any(theta)


@CHECK.test(rec(Z=st.lists(num(0, 1), min_size=1, max_size=4), T=st.lists(logu(5e-3, 1), min_size=1, max_size=4), L=pos, kv=logu(1e-3, 10), mv=pos, ui=logu(0.1, 100)), quick=100, thorough=2000)
def no_fraction(c):
    """theta = 0 is a layer of thickness L drained at both ends"""
    T1 = c['L']**2 * c['mv'] * 10 / c['kv']
    z, t = np.array(c['Z']) * c['L'], np.array(c['T']) * T1
    por, doc = K.cosenzaandkorosak2014(z, t, [0.], [0.5], L=c['L'], kv=c['kv'], mv=c['mv'], gamw=10, ui=c['ui'], nterms=40)
    por2, doc2 = terzaghi_1d(z, t, H=c['L'] / 2, kv=c['kv'], mv=c['mv'], gamw=10, ui=c['ui'], nterms=40)
    close(por / c['ui'], por2 / c['ui'], 0, 5e-5, 'pore pressure against Terzaghi')
    close(doc, doc2, 0, 5e-5, 'degree of consolidation against Terzaghi')
    return True


@CHECK.test(rec(Z=num(0.05, 0.95), T=st.lists(logu(5e-3, 5), min_size=1, max_size=3), ratio=st.lists(st.one_of(logu(1e-7, 1e-3).map(lambda v: 1 + v), num(0.2, 5)), min_size=3, max_size=3), fast=st.sampled_from([1., 1e6, 1e9]),
                theta=st.one_of(st.just(0.), logu(0.01, 5)), v=grid(0.05, 0.95, 18), n=st.sampled_from([3, 10])), quick=40, thorough=800)
def own_times(c):
    """pressures belong to tpor and degrees of consolidation to t, however close or small those are"""
    T1 = 1 / c['fast']
    t = np.array(c['T']) * T1
    tp = t * np.array(c['ratio'])[:len(t)]
    f = lambda a, b: [np.asarray(r) for r in K.cosenzaandkorosak2014([c['Z']], a, [c['theta'] * T1**(c['v'] - 1)], [c['v']], tpor=b, L=1., kv=c['fast'], mv=0.1, gamw=10., nterms=c['n'])]
    por, doc = f(t, tp)
    close(por, f(tp, None)[0], 1e-10, 1e-12, 'pressure at tpor')
    close(doc, f(t, None)[1], 1e-10, 1e-12, 'degree of consolidation at t')
    return bool((tp != t).any())
