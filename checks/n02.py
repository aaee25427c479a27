"""N02: Hankel, Fourier and nested transforms against closed-form pairs."""
from harness import *
import warnings
from scipy.special import jv, jn_zeros
import geotecha.mathematics.hankel as H
import geotecha.mathematics.fourier as Fo
import geotecha.mathematics.multi_transform as MT

CHECK = Check('N02', rule='a sum of several functions, order above 0, a function with imaginary part, or several variables',
              assumptions=['functions smooth between the stated break points that have decayed within the range covered by the requested number of segments (or extrapolated), as the documentation asks', 'transform variable positive for the vectorised and Hankel transforms', 'transform lists ordered as the documentation says'])

# ---------------------------------------------------------------- Hankel pairs
def hf(t, v, r):
    k, c, a = t
    if k == 'gauss':
        return c * r**v * np.exp(-a * r**2)
    if k == 'expr':
        return c * np.exp(-a * r) / r
    if k == 'exp0':
        return c * np.exp(-a * r)
    if k == 'inv':
        return c / r
    if k == 'lorentz':
        return c / np.sqrt(r**2 + a**2)
    if k == 'disc':
        return c * np.where(r < a, 1, 0) * r**v


def hF(t, v, s):
    k, c, a = t
    if k == 'gauss':
        return c * s**v / (2 * a)**(v + 1) * np.exp(-s**2 / (4 * a))
    if k == 'expr':
        q = np.sqrt(a * a + s * s)
        return c * (s / (q + a))**v / q
    if k == 'exp0':
        return c * a / (a * a + s * s)**1.5
    if k == 'inv':
        return c / s
    if k == 'lorentz':
        return c * np.exp(-a * s) / s
    if k == 'disc':
        return c * a**(v + 1) * jv(v + 1, a * s) / s


HT = rec(kind=st.sampled_from(['gauss', 'expr', 'exp0', 'disc', 'inv', 'lorentz']), c=st.integers(-5, 5).filter(bool), a=num(.5, 2))
HC = dict(terms=st.lists(HT, min_size=1, max_size=3), order=st.integers(0, 4), m=st.sampled_from([20, 20, 30, 41]), s=st.lists(num(.5, 2), min_size=1, max_size=4), args=st.booleans())


def hterms(c):
    v = c['order']
    ts = [(t['kind'], float(t['c']), t['a']) for t in c['terms']]
    ts = [t for t in ts if v == 0 or t[0] in ('gauss', 'expr', 'disc', 'inv')]
    slow = any(t[0] in ('inv', 'lorentz') for t in ts)
    return v, ts, slow


@CHECK.test(rec(ng=st.sampled_from([None, 7, 10, 15, 30]), ng0=st.sampled_from([None, 20, 25, 30]), pts=st.lists(num(.1, 30), max_size=2), lim=maybe(st.tuples(num(0, 2), num(.1, 20), st.integers(0, 2))), **HC), quick=1500, thorough=30000)
def hankel(c):
    """HankelTransform of sums of pairs; break points; integration limits"""
    v, ts, slow = hterms(c)
    if not ts:
        return False
    s = c['s'][0] * jn_zeros(v, 1)[0] / 2.4   # the first panel resolves the function
    kw = {}
    if v:
        kw['order'] = v
    if c['m'] != 20:
        kw['m'] = c['m']
    if c['ng']:
        kw['ng'] = c['ng']
    if c['ng0']:
        kw['ng0'] = c['ng0']
    brk = [t[2] for t in ts if t[0] == 'disc']
    top = jn_zeros(v, c['m'])[-1] / s
    if any(b > top * .9 for b in brk):
        return False
    if c['lim']:
        a, w, p = c['lim']
        b = a + w
        if b > top * .95:
            return False
        # r^v on [a, b]
        f = lambda r, *k: (k[0] if k else 1.) * r**p * r**v
        # integral of r^(v+p+1) J_v(s r): Gauss-Legendre on short panels
        x, wt = np.polynomial.legendre.leggauss(24)
        e = np.linspace(a, b, 2 + int(2 * s * (b - a)))
        X = (e[1:, None] - e[:-1, None]) / 2 * x + (e[1:, None] + e[:-1, None]) / 2
        g = X**(v + p + 1) * jv(v, s * X) * wt * (e[1:, None] - e[:-1, None]) / 2
        want, sc = g.sum(), np.abs(g).sum()
        kw.update(ng=30, ng0=30)   # the first interval is not split further
        pts = sorted(set(c['pts']))
        if pts:
            kw['points'] = pts
        ht = H.HankelTransform(f, (2.,) if c['args'] else (), **kw)
        got, err = ht(s, a, b)
        close(got, want * (2 if c['args'] else 1), 1e-9, 1e-9 * sc, 'transform between %r and %r' % (a, b))
        label('limits')
        return v > 0
    if slow:
        # extrapolated from a place where the other parts have decayed
        kw['shanks_ind'] = 5
        if brk or len(ts) > 1:
            return False
    dec = 36 / top
    if any(t[0] in ('expr', 'exp0') and t[2] < dec for t in ts) or (any(t[0] == 'gauss' and t[2] * top**2 < 36 for t in ts)):
        return False
    f = lambda r, *k: (k[0] if k else 1.) * sum(hf(t, v, r) for t in ts)
    pts = brk + (c['pts'] if not slow else [])
    if pts or c['args']:
        kw['points'] = pts
    snap = snapshot(pts)
    ht = H.HankelTransform(f, (2.,) if c['args'] else (), **kw)
    want = sum(hF(t, v, s) for t in ts) * (2 if c['args'] else 1)
    sc = sum(abs(t[1]) for t in ts) * 4
    coarse = (c['ng'] or 10) == 7
    got, err = ht(s)
    tol = 1e-4 if slow else 2e-7 if coarse else 1e-8
    close(got, want, 0, tol * sc, 'Hankel transform of order %d' % v)
    require(np.ndim(got) == 0 and np.ndim(err) == 0 and err >= 0, 'result %r %r' % (got, err))
    again = ht(s)
    close(again, (got, err), 0, 0, 'second call')
    same_snapshot(snap, pts)
    label('extrapolated' if slow else 'plain')
    return v > 0 or len(ts) > 1


@CHECK.test(rec(ng=st.sampled_from([None, 15, 20, 32, 64]), integer=st.booleans(), **HC), quick=1000, thorough=20000)
def vhankel(c):
    """vectorised Hankel transform; transforming twice returns the function"""
    v, ts, slow = hterms(c)
    ts = [t for t in ts if t[0] != 'disc']
    if not ts:
        return False
    s = np.array(c['s']) * jn_zeros(v, 1)[0] / 2.4
    top = jn_zeros(v, c['m'])[-1] / s.max()
    kw = {}
    if v:
        kw['order'] = v
    if c['m'] != 20:
        kw['m'] = c['m']
    if c['ng']:
        kw['ng'] = c['ng']
    args = (2.,) if c['args'] else ()
    k = 2. if c['args'] else 1.
    if slow:
        if len(ts) > 1:
            return False
        kw['shanks_ind'] = 5
    if any(t[0] in ('expr', 'exp0') and t[2] * top < 36 for t in ts) or (any(t[0] == 'gauss' and t[2] * top**2 < 36 for t in ts)):
        return False
    f = lambda r, *q: (q[0] if q else 1.) * sum(hf(t, v, r) for t in ts)
    snap = snapshot(s)
    got = H.vhankel_transform(f, s if len(s) > 1 or c['args'] else s[0], args, **kw)
    same_snapshot(snap, s)
    want = k * sum(hF(t, v, s) for t in ts)
    sc = sum(abs(t[1]) for t in ts) * 4 * k
    close(got, want, 0, (1e-4 if slow else 1e-6 if c['ng'] == 15 else 1e-8) * sc, 'vectorised Hankel transform of order %d' % v)
    # a cached array returned by the function is left alone, integers work
    store = {}

    def ones(x):
        store['x'] = store.get('x', np.ones(x.shape, int if c['integer'] else float))
        return store['x']
    e = top * s.max() / s
    box = H.vhankel_transform(ones, s, **kw) if not slow else None
    if box is not None and v == 0:
        close(box, e * jv(1, s * e) / s, 1e-8, 1e-8, 'constant on the whole range')
        require(np.all(store['x'] == 1), 'array returned by the function was altered')
    # Gaussian pair: inverse is the same transform
    g = [t for t in ts if t[0] == 'gauss']
    if g and not slow:
        F = lambda q: sum(hF(t, v, q) for t in g)
        if all(top**2 / (4 * t[2]) > 36 for t in g):
            close(H.vhankel_transform(F, s, **kw), sum(hf(t, v, s) for t in g), 0, (1e-6 if c['ng'] == 15 else 1e-7) * sc, 'transform of the transform')
            label('round trip')
    return v > 0 or len(ts) > 1


# ---------------------------------------------------------------- Fourier pairs: f(x), F(w) of exp(-i w x)
def ff(t, x):
    k, c, a = t
    if k == 'lap':
        return c * np.exp(-a * np.abs(x))
    if k == 'gauss':
        return c * np.exp(-a * x * x)
    if k == 'slap':
        return c * np.sign(x) * np.exp(-a * np.abs(x))
    if k == 'xgauss':
        return c * x * np.exp(-a * x * x)
    if k == 'one':
        return c * np.exp(-a * np.abs(x)) * (x > 0)
    if k == 'hump':
        return c * np.exp(-a * (x - .5)**2)


def fF(t, w):
    k, c, a = t
    if k == 'lap':
        return c * 2 * a / (a * a + w * w)
    g = math.sqrt(math.pi / a) * np.exp(-w * w / (4 * a))
    if k == 'gauss':
        return c * g
    if k == 'slap':
        return -2j * c * w / (a * a + w * w)
    if k == 'xgauss':
        return -1j * c * w / (2 * a) * g
    if k == 'one':
        return c / (a + 1j * w)
    if k == 'hump':
        return c * g * np.exp(-.5j * w)


PAR = {'lap': 'even', 'gauss': 'even', 'slap': 'odd', 'xgauss': 'odd', 'one': '', 'hump': ''}
FT = rec(kind=st.sampled_from(sorted(PAR)), c=st.integers(-5, 5).filter(bool), a=num(.5, 3))


def parity(ts):
    p = set(PAR[t[0]] for t in ts)
    return p.pop() if len(p) == 1 else ''


def cut(t, w, b):
    """numerical transform of f between -b and b"""
    x, wt = np.polynomial.legendre.leggauss(16)
    e = np.linspace(0, b, 2 + int(b * (2 + w)))
    X = ((e[1:, None] - e[:-1, None]) / 2 * x + (e[1:, None] + e[:-1, None]) / 2).ravel()
    W = (wt * (e[1:, None] - e[:-1, None]) / 2).ravel()
    return np.sum(W * (ff(t, X) * np.exp(-1j * w * X) + ff(t, -X) * np.exp(1j * w * X)))


@CHECK.test(rec(re=st.lists(FT, max_size=2), im=st.lists(FT, max_size=2), hint=st.tuples(st.booleans(), st.booleans()), purpose=st.booleans(), inv=st.booleans(), w=st.one_of(st.just(0.), num(.1, 5)), neg=st.booleans(), b=maybe(num(.5, 4)), args=st.booleans()), quick=1500, thorough=30000)
def fourier(c):
    """every truthful combination of hints gives the transform; inverse; finite range"""
    re = [(t['kind'], float(t['c']), t['a']) for t in c['re']]
    im = [(t['kind'], float(t['c']), t['a']) for t in c['im']]
    if not re and not im:
        return False
    w = -c['w'] if c['neg'] else c['w']
    k = 3. if c['args'] else 1.
    kw = {}
    pr, pi_ = parity(re), parity(im)
    if c['hint'][0] and pr and re:
        kw['real_part_' + pr] = True
    if c['hint'][1] and pi_ and im:
        kw['imag_part_' + pi_] = True
    if not im and c['purpose']:
        f = lambda x, *q: (q[0] if q else 1.) * sum(ff(t, x) for t in re)
        kw['func_is_real'] = True
    elif not re and c['purpose']:
        f = lambda x, *q: (q[0] if q else 1.) * sum(ff(t, x) for t in im)
        kw['func_is_imag'] = True
    else:
        f = lambda x, *q: (q[0] if q else 1.) * (sum(ff(t, x) for t in re) + 1j * sum(ff(t, x) for t in im))
    if c['inv']:
        kw['inv'] = True
    if c['b']:
        kw['b'] = c['b']
    tr = (lambda t, w: cut(t, abs(w), c['b']) if w >= 0 else np.conj(cut(t, -w, c['b']))) if c['b'] else fF
    ww = -w if c['inv'] else w
    want = k * (sum(tr(t, ww) for t in re) + 1j * sum(tr(t, ww) for t in im))
    if c['inv']:
        want = want / (2 * math.pi)
    ft = Fo.FourierTransform(f, (3.,) if c['args'] else (), **kw)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        got, err = ft(w)
    require(np.imag(err) == 0 and np.real(err) >= 0, 'error estimate %r' % err)
    sc = k * sum(abs(t[1]) for t in re + im) * 4
    close(complex(got), complex(want), 0, 1e-6 * sc, 'transform at %r with %r' % (w, kw))
    label(','.join(sorted(x for x in kw if x not in ('inv', 'b'))) or 'no hints')
    # helpers
    g = lambda x, q: q * (x + 1 + 2j * x)
    close(Fo.real_func(w, g, 2.), 2 * (w + 1), 1e-14, 0, 'real_func')
    close(Fo.imag_func(w, g, 2.), 4 * w, 1e-14, 0, 'imag_func')
    close(Fo.func_mirror_for_even_weight(w, g, 2.), 2 * (-w + 1 - 2j * w), 1e-14, 1e-14, 'mirror even')
    close(Fo.func_mirror_for_odd_weight(w, g, 2.), -2 * (-w + 1 - 2j * w), 1e-14, 1e-14, 'mirror odd')
    return bool(im) or len(re) > 1


@CHECK.test(rec(t=st.lists(FT, min_size=1, max_size=2), w=num(.1, 5), b=maybe(num(.5, 4)), a=num(0, .4), args=st.booleans()), quick=300, thorough=6000)
def cos_sin(c):
    """cosine_transform and sine_transform: the even and odd half-range integrals"""
    ts = [(t['kind'], float(t['c']), t['a']) for t in c['t']]
    k = 3. if c['args'] else 1.
    f = lambda x, *q: (q[0] if q else 1.) * sum(ff(t, x) for t in ts)
    hi = c['b'] or 40.
    lo = c['a'] if c['b'] else 0.
    x, wt = np.polynomial.legendre.leggauss(16)
    e = np.linspace(lo, hi, 2 + int((hi - lo) * (2 + c['w'])))
    X = ((e[1:, None] - e[:-1, None]) / 2 * x + (e[1:, None] + e[:-1, None]) / 2).ravel()
    W = (wt * (e[1:, None] - e[:-1, None]) / 2).ravel()
    want = k * np.sum(W * sum(ff(t, X) for t in ts) * np.exp(1j * c['w'] * X))
    kw = dict(b=c['b'], a=lo) if c['b'] else {}
    args = (3.,) if c['args'] else ()
    sc = k * 4 * sum(abs(t[1]) for t in ts)
    close(Fo.cosine_transform(f, c['w'], args, **kw)[0], want.real, 0, 1e-6 * sc, 'cosine transform')
    close(Fo.sine_transform(f, c['w'], args, **kw)[0], want.imag, 0, 1e-6 * sc, 'sine transform')
    return len(ts) > 1


CT = rec(kind=st.sampled_from(['lap', 'gauss']), c=st.integers(-5, 5).filter(bool), a=num(.8, 3))


@CHECK.test(rec(t=st.lists(CT, min_size=1, max_size=2), t2=st.lists(CT, min_size=1, max_size=2), s=st.lists(num(.3, 3), min_size=1, max_size=3), s2=st.lists(num(.3, 3), min_size=1, max_size=2), m=st.sampled_from([20, 30]), ng=st.sampled_from([None, 20, 32]), slow=st.booleans(), args=st.booleans(), integer=st.booleans()), quick=500, thorough=8000)
def vcosine(c):
    """vectorised cosine transforms in one and two dimensions"""
    ts = [(t['kind'], float(t['c']), t['a']) for t in c['t']]
    t2 = [(t['kind'], float(t['c']), t['a']) for t in c['t2']]
    s, s2 = np.array(c['s']), np.array(c['s2'])
    m = c['m']
    top = (2 * m - 1) * math.pi / 2
    k = 3. if c['args'] else 1.
    args = (3.,) if c['args'] else ()
    kw = {}
    if m != 20:
        kw['m'] = m
    if c['ng']:
        kw['ng'] = c['ng']
    snap = snapshot(s, s2)
    if c['slow']:   # 1/sqrt-like decay by extrapolation: x/(x^2+a^2)-free form 1/(1+x^2)
        a = ts[0][2]
        got = Fo.vcosine_transform(lambda x, *q: 1. / (a * a + x * x), s, args, shanks_ind=5, **kw)
        close(got, math.pi / (2 * a) * np.exp(-a * s), 0, 1e-4, 'extrapolated cosine transform')
        label('extrapolated')
        return False
    if any((t[2] * top / s.max() if t[0] == 'lap' else t[2] * (top / s.max())**2) < 30 for t in ts):
        return False
    # a short first panel resolves the narrowest function
    f = lambda x, *q: (q[0] if q else 1.) * sum(ff(t, x) for t in ts)
    sc = k * 4 * sum(abs(t[1]) for t in ts)
    got = Fo.vcosine_transform(f, s if len(s) > 1 else s[0], args, **kw)
    close(got, k * sum(fF(t, s) for t in ts) / 2, 0, 1e-7 * sc, 'cosine transform')
    e = top / s
    store = {}

    def ones(x):
        store['x'] = np.ones(x.shape, int if c['integer'] else float)
        return store['x']
    close(Fo.vcosine_transform(ones, s, **kw), np.sin(s * e) / s, 1e-10, 1e-10, 'constant')
    require(np.all(store['x'] == 1), 'array returned by the function was altered')
    if not any((t[2] * top / s2.max() if t[0] == 'lap' else t[2] * (top / s2.max())**2) < 30 for t in t2):
        f2 = lambda x, y, *q: f(x, *q) * sum(ff(t, y) for t in t2)
        got = Fo.v2dcosine_transform(f2, s, s2, args, **kw)
        w2 = np.outer(k * sum(fF(t, s) for t in ts) / 2, sum(fF(t, s2) for t in t2) / 2)
        close(got, w2, 0, 1e-7 * sc * 4 * sum(abs(t[1]) for t in t2), 'two-dimensional cosine transform')
        label('2d')
    same_snapshot(snap, s, s2)
    return len(ts) > 1


# ---------------------------------------------------------------- nested
LT = rec(c=st.integers(-4, 4).filter(bool), a=num(.2, 2))
NAMES = [['Fourier'], ['Fourier_inverse'], ['Hankel'], ['Hankel_inverse'], ['Laplace_inverse'], ['Laplace_inverse', 'Fourier'], ['Laplace_inverse', 'Fourier_inverse'], ['Hankel', 'Laplace_inverse'], ['Hankel_inverse', 'Laplace_inverse'],
         ['Laplace_inverse', 'Laplace_inverse'], ['Fourier', 'Fourier_inverse'], ['Hankel', 'Fourier']]


@CHECK.test(rec(which=st.integers(0, len(NAMES) - 1), p=st.lists(LT, min_size=2, max_size=2), q=maybe(st.lists(LT, min_size=2, max_size=2)), v=st.lists(num(.4, 1.6), min_size=2, max_size=2), args=st.booleans(), form=st.integers(0, 3), order=st.integers(0, 2)), quick=300, thorough=5000)
def nested(c):
    """sums of products: each variable transformed by its own transform, in the documented order"""
    names = NAMES[c['which']]
    n = len(names)
    parts = [c['p']] + ([c['q']] if c['q'] else [])
    k = 2. if c['args'] else 1.
    opts = []
    for i, nm in enumerate(names):
        if nm.startswith('Fourier'):
            o = dict(func_is_real=True, real_part_even=True, b=9.)
        elif nm.startswith('Hankel'):
            o = dict(order=c['order'], m=30)
        else:
            o = dict(vectorized=False) if i else {}
        opts.append(o)

    def fn(nm, d, x):
        if nm.startswith('Fourier'):
            return np.exp(-(d['a'] + .5) * x * x)
        if nm.startswith('Hankel'):
            return x**c['order'] * np.exp(-(d['a'] + .5) * x * x)
        return 1 / (x + d['a'])

    def Fn(nm, d, w):
        a = d['a'] + .5
        if nm.startswith('Fourier'):
            return math.sqrt(math.pi / a) * math.exp(-w * w / (4 * a)) / (2 * math.pi if nm.endswith('inverse') else 1)
        if nm.startswith('Hankel'):
            return w**c['order'] / (2 * a)**(c['order'] + 1) * math.exp(-w * w / (4 * a))
        return math.exp(-d['a'] * w)

    def f(*x):
        require(len(x) == n + len(args), 'number of arguments')
        kk = x[n] if c['args'] else 1.
        return kk * sum(float(p[0]['c']) * np.prod([1.]) * _mul(fn(nm, p[i], x[i]) for i, nm in enumerate(names)) for p in parts)

    def _mul(it):
        r = 1.
        for v in it:
            r = r * v
        return r
    args = (k,) if c['args'] else ()
    want = k * sum(float(p[0]['c']) * _mul(Fn(nm, p[i], c['v'][i]) for i, nm in enumerate(names)) for p in parts)
    o = opts
    if c['form'] == 1:
        o = [(lambda d: (lambda *a: d))(d) for d in opts]
    elif c['form'] == 2 and len(set(nm.split('_')[0] for nm in names)) == 1 and names[0] != 'Laplace_inverse':
        o = opts[0]
    elif c['form'] == 3 and all(d == {} for d in opts):
        o = None
    snap = snapshot(opts, c['v'])
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        got, err = MT.ntransform(f, names, c['v'][:n], args=args if args else None, opts=o)
    same_snapshot(snap, opts, c['v'])
    close(float(np.real(got)), want, 0, 1e-6 * k * 10, 'nested transform %s' % names)
    require(np.imag(got) == 0 or abs(np.imag(got)) < 1e-6, 'imaginary part %r' % got)
    require(np.real(err) >= 0, 'error estimate')
    raises(AssertionError, lambda: MT.ntransform(f, names, c['v'][:n] + [1.], args=args, opts=o), 'wrong number of variables')
    raises(TypeError, lambda: MT.ntransform(f, names, 1., args=args, opts=o), 'variables not iterable')
    label('+'.join(names))
    return n > 1
