"""N01: Talbot inversion of Laplace transforms against closed forms."""
from harness import *
import mpmath
import scipy.special as sp
import geotecha.mathematics.laplace as L
import geotecha.mathematics.mp_laplace as M

CHECK = Check('N01', quick_scale=2, rule='at least two different terms and two times',
              assumptions=['singularities on the negative real axis, or complex ones whose frequency times time is below a tenth of the number of points', 'smooth time functions'])

# kind, parameters -> F(s, lib), f(t)
KINDS = ['exp', 'texp', 'step', 'ramp', 'power', 'erfc', 'sine', 'cosine', 'grow', 'sqrt']


def Fs(term, z, m):
    k, c, a, p = term
    if k == 'exp':
        return c / (z + a)
    if k == 'texp':
        return c * math.factorial(int(p)) / (z + a)**(int(p) + 1)
    if k == 'step':
        return c / z
    if k == 'ramp':
        return c / z**2
    if k == 'power':
        return c * m.gamma(p + 1) / m.power(z, p + 1)
    if k == 'erfc':
        return c * m.exp(-a * m.sqrt(z)) / z
    if k == 'sine':
        return c * p / ((z + a)**2 + p * p)
    if k == 'cosine':
        return c * (z + a) / ((z + a)**2 + p * p)
    if k == 'grow':
        return c / (z - a)
    if k == 'sqrt':
        return c / m.sqrt(z + a)


def ft(term, t, m):
    k, c, a, p = term
    if k == 'exp':
        return c * m.exp(-a * t)
    if k == 'texp':
        return c * t**int(p) * m.exp(-a * t)
    if k == 'step':
        return c + 0 * t
    if k == 'ramp':
        return c * t
    if k == 'power':
        return c * m.power(t, p)
    if k == 'erfc':
        return c * m.erfc(a / (2 * m.sqrt(t)))
    if k == 'sine':
        return c * m.exp(-a * t) * m.sin(p * t)
    if k == 'cosine':
        return c * m.exp(-a * t) * m.cos(p * t)
    if k == 'grow':
        return c * m.exp(a * t)
    if k == 'sqrt':
        return c * m.exp(-a * t) / m.sqrt(m.pi * t)


class NP(object):
    exp, sqrt, power, erfc, sin, cos, pi = np.exp, np.sqrt, np.power, sp.erfc, np.sin, np.cos, math.pi
    gamma = staticmethod(math.gamma)


class MPo(object):
    """elementwise mpmath on object arrays"""
    pi = None
    exp = staticmethod(np.frompyfunc(mpmath.exp, 1, 1))
    sqrt = staticmethod(np.frompyfunc(mpmath.sqrt, 1, 1))
    power = staticmethod(np.frompyfunc(mpmath.power, 2, 1))
    gamma = staticmethod(mpmath.gamma)


TERM = rec(kind=st.sampled_from(KINDS), c=st.integers(-8, 8).filter(bool), a=num(0, 4), p=num(0, 1))
CASE = dict(terms=st.lists(TERM, min_size=1, max_size=4), times=st.lists(num(0, 1), min_size=1, max_size=5), tscale=st.sampled_from([1., 1., 1e-3, 1e4]), n=st.sampled_from([24, 24, 20, 23, 16, 28, 30]), shift=num(0, .5))


def terms(c, n):
    """scaled to the time scale; returns terms and (per time) sizes of the parts"""
    T = c['tscale']
    out = []
    for d in c['terms']:
        k, a, p = d['kind'], d['a'], d['p']
        if k == 'texp':
            p = int(3.99 * p)
        elif k == 'power':
            p = round(-.5 + 2.5 * p, 6)
        elif k in ('sine', 'cosine'):
            p = (.015 + .02 * p) * n / 2 / T
            a = a / T
        if k == 'erfc':
            a = a * math.sqrt(T)
        elif k == 'grow':
            a = .1 * a / T
        elif k not in ('sine', 'cosine'):
            a = a / T
        out.append((k, float(d['c']), a, p))
    return out


def times(c):
    return [c['tscale'] * (.05 + 1.95 * x) for x in c['times']]


def size(ts, t, trunc=False):
    """magnitude of the parts of f at t; trunc: weighted by how slowly the rule converges for them"""
    s = 0.
    t, w = float(t), 1.
    for k, c, a, p in ts:
        if k == 'texp':
            v = t**p
        elif k == 'ramp':
            v = t
        elif k == 'power':
            v = t**p
        elif k == 'sqrt':
            v = t**-.5
        elif k == 'grow':
            v = math.exp(a * t)
        else:
            v = 1.
        if trunc:
            w = 60.**float(p) if k in ('texp', 'power') and p > 0 else 200. if k == 'ramp' else 8000. if k in ('sine', 'cosine') else 1.
        s += abs(c) * float(v) * w
    return s


@CHECK.test(rec(args=st.booleans(), **CASE), quick=4000, thorough=100000)
def floats(c):
    """float version: all call forms agree and give f(t)"""
    n = c['n']
    ne = n + n % 2
    ts, tt = terms(c, ne), times(c)
    grow = max([a for k, _, a, _ in ts if k == 'grow'] + [0])
    shift = (grow + c['shift'] / c['tscale']) if grow or c['shift'] > .25 else 0.
    F = (lambda z, k: k * sum(Fs(x, z, NP) for x in ts)) if c['args'] else (lambda z: sum(Fs(x, z, NP) for x in ts))
    args = (2.5,) if c['args'] else ()
    k = 2.5 if c['args'] else 1.
    kw = {}
    if n != 24:
        kw['n'] = n
    if shift:
        kw['shift'] = shift
    arr = np.array(tt)
    snap = snapshot(arr, tt)
    tb = L.Talbot(F, **kw)
    got = tb(arr, args) if args else tb(arr)
    want = np.array([k * sum(ft(x, t, NP) for x in ts) for t in tt])
    tol = np.array([k * (10**(-.55 * ne) * size(ts, t, True) + 1e-14 * math.exp(.175 * ne) * size(ts, t)) * math.exp(shift * t) for t in tt])
    g = np.atleast_1d(got)
    require(g.shape == want.shape, 'shape')
    require(np.all(np.abs(g - want) <= tol * 10), lambda: 'inverse transform: got %r expected %r tolerance %r' % (g, want, tol))
    if len(tt) == 1:
        require(np.ndim(got) == 0, 'one time gives a float')
    one = [tb(t, args=args) for t in tt]
    require(all(np.ndim(v) == 0 for v in one), 'a single time gives a float')
    close(g - one, 0 * g, 0, 1e-11 * k * max(size(ts, t) * math.exp(shift * t) for t in tt), 'single times')
    # not vectorised: F is called with scalars only
    def Fsc(z, *a):
        require(np.ndim(z) == 0, 'array passed to a function that is not vectorised')
        return F(complex(z), *a)
    loop = L.Talbot(Fsc, vectorized=False, **kw)(tt, args)
    close(np.atleast_1d(loop), g, 0, 1e-11 * k * max(size(ts, t) * math.exp(shift * t) for t in tt), 'vectorized=False')
    same_snapshot(snap, arr, tt)
    raises(ValueError, lambda: tb(tt + [0.], args), 'zero time')
    label('shifted' if shift else 'no shift')
    return len(tt) > 1 and len(set(x[0] for x in ts)) > 1


@CHECK.test(rec(dps=st.sampled_from([None, 15, 30, 50]), mpt=st.booleans(), **CASE), quick=160, thorough=3000)
def multi(c):
    """multi-precision version reaches the precision asked for"""
    n = c['n']
    dps = c['dps']
    old = mpmath.mp.dps
    try:
        mpmath.mp.dps = 15
        want_dps = dps or 15
        n = {None: n, 15: n, 30: 50 + n % 2, 50: 80 - n % 2}[dps]
        ne = n + n % 2
        mpmath.mp.dps = want_dps + 10
        ts, tt = [(k, mpmath.mpf(a), mpmath.mpf(b), d if k == 'texp' else mpmath.mpf(d)) for k, a, b, d in terms(c, 24)], times(c)
        mpmath.mp.dps = 15
        grow = max([a for k, _, a, _ in ts if k == 'grow'] + [0])
        shift = float(grow + c['shift'] / c['tscale']) if grow or c['shift'] > .25 else 0.
        F = lambda z, k: k * sum(Fs(x, z, MPo) for x in ts)
        kw = {}
        if n != 24:
            kw['n'] = n
        if shift:
            kw['shift'] = shift
        tb = M.Talbot(F, dps=dps, **kw) if dps else M.Talbot(F, **kw)
        require(tb.dps == want_dps and mpmath.mp.dps == want_dps, 'dps')
        arg = [mpmath.mpf(t) for t in tt] if c['mpt'] else tt
        got = tb(arg, args=(2,))
        g = list(got) if len(tt) > 1 else [got]
        require(len(g) == len(tt), 'length')
        mpmath.mp.dps = want_dps + 10
        e = mpmath.mpf(10)**(-mpmath.mpf('.55') * ne) if ne < 40 else mpmath.mpf(10)**(-mpmath.mpf('.53') * ne)
        for v, t in zip(g, tt):
            w = 2 * sum(ft(x, mpmath.mpf(t), mpmath) for x in ts)
            tol = 10 * (e * size(ts, t, True) + mpmath.mpf(10)**(-want_dps) * 3 * mpmath.exp(.175 * ne) * size(ts, t)) * math.exp(shift * t)
            require(isinstance(v, mpmath.mpf), 'type %r' % type(v))
            require(abs(v - w) <= tol, lambda: 'inverse transform at %r: got %s expected %s, error %s, tolerance %s' % (t, v, w, mpmath.nstr(v - w, 3), mpmath.nstr(tol, 3)))
        raises(ValueError, lambda: tb([1., 0.], (2,)), 'zero time')
        label('dps %s' % dps)
    finally:
        mpmath.mp.dps = old
    return len(tt) > 1 and len(set(x[0] for x in ts)) > 1


@CHECK.test(rec(phi=st.lists(num(.01, 3.1), min_size=1, max_size=5), arr=st.booleans()), quick=200, thorough=2000, shards=2)
def reciprocals(c):
    """cot and csc"""
    x = np.array(c['phi']) if c['arr'] else c['phi'][0]
    close(L.cot(x), np.cos(x) / np.sin(x), 1e-12, 1e-12, 'cot')
    close(L.csc(x), 1 / np.sin(x), 1e-14, 0, 'csc')
    return c['arr']
