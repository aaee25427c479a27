"""N05: the first n roots in order; fixed points; depth to reduced level."""
from harness import *
import geotecha.mathematics.root_finding as R
from geotecha.mathematics.transformations import depth_to_reduced_level

CHECK = Check('N05', quick_scale=2, rule='at least two roots were asked for, or the fixed point was not the start',
              assumptions=['simple roots, further apart than the search step reaches (dx, growing with p) and within max_iter steps', 'functions evaluable at every point the root polisher may try'])

GAP = st.integers(4, 40)


def fn(kind, roots, below):
    """function with simple roots exactly at roots (and nowhere else beyond the first)"""
    r = np.asarray(roots, float)
    if kind == 'poly':
        sc = np.mean(np.diff(r)) if len(r) > 1 else 1.
        return lambda x: np.prod([(x - a) / (abs(x - a) + sc) for a in r], axis=0)
    if kind == 'flip':
        g = fn('poly', roots, below)
        return lambda x: -g(x) * (2 + np.cos(x / 4 / (np.mean(np.diff(r)) if len(r) > 1 else 1.)))
    if kind == 'wave':   # cubic-free monotone map taking the roots to 1, 2, 3...
        from scipy.interpolate import PchipInterpolator
        a = np.concatenate(([r[0] - (r[1] - r[0] if len(r) > 1 else 1.)], r, [r[-1] + (r[-1] - r[-2] if len(r) > 1 else 1.)]))
        v = np.arange(float(len(a)))
        v[0], v[-1] = 0.5, v[-1] - 0.5
        s = PchipInterpolator(a, v, extrapolate=False)
        lo, hi = a[0], a[-1]

        def f(x):
            x = np.asarray(x, float)
            xc = np.clip(x, lo, hi)
            g = s(xc) + np.where(x < lo, 0.4 * np.tanh((x - lo) / (a[1] - a[0])), 0) + np.where(x > hi, 0.4 * np.tanh((x - hi) / (hi - a[-2])), 0)
            return np.sin(math.pi * g)
        return f
    if kind == 'steep':   # very unequal magnitudes, multiple zero outside the search range
        g = fn('poly', roots, below)
        x00 = below
        return lambda x: ((x - x00))**5 * g(x)
    raise KeyError(kind)


@CHECK.test(rec(kind=st.sampled_from(['poly', 'flip', 'wave', 'steep']), gaps=st.lists(GAP, min_size=1, max_size=7), extra=st.lists(GAP, min_size=1, max_size=3), start=num(0.05, 12), x0=num(-10, 10, 20),
                unit=st.sampled_from([1., 0.1, 7.3, 1e-4, 1e3]), p=st.sampled_from([1., 1., 1.01, 1.05]), exact=st.booleans(), shiftarg=st.booleans()), quick=1500, thorough=40000)
def first_roots(c):
    """gaps are in steps of dx"""
    dx = 0.25 * c['unit']
    n = len(c['gaps'])
    gaps = c['gaps'] + c['extra']
    p = c['p']
    x0 = c['x0'] * c['unit']
    first = (float(gaps[0]) if c['exact'] else c['start'] + gaps[0] + 0.37)
    pos = np.concatenate(([first], first + np.cumsum(gaps[1:])))
    # steps reached when growing by p: keep clear of the closest pair of roots
    step = 1. + 2 * (p - 1) * max(first, max(gaps))
    if min(gaps[1:] or [99]) < 1.5 * step:
        return False
    roots = x0 + pos * dx
    off = 3.25 * c['unit'] if c['shiftarg'] else 0.
    g = fn(c['kind'], roots - off, x0 - off - dx)
    f = (lambda x, o: g(x - o)) if c['shiftarg'] else g
    got = R.find_n_roots(f, args=(off,) if c['shiftarg'] else (), n=n, x0=x0, dx=dx, p=p, max_iter=20000)
    got = np.asarray(got)
    require(got.shape == (n,), 'number of roots')
    close(got, roots[:n], 1e-6, 1e-6 * dx, 'roots')
    return n > 1


@CHECK.test(rec(kind=st.sampled_from(['poly', 'flip', 'wave']), gaps=st.lists(logu(0.06, 30), min_size=2, max_size=6), start=logu(0.3, 60), p=st.sampled_from([1., 1.02, 1.2, 1.5]),
                unit=st.sampled_from([1., 0.05, 40.]), more=st.integers(0, 2)), quick=1200, thorough=30000)
def uneven_roots(c):
    """roots close together after roots far apart: each search step still contains one root only.
    The step that reaches a root is at most p * (the step after the last root + (p - 1) * the distance),
    and at most half of it is used for the next root."""
    p = c['p']
    pos, step, at = [c['start']], p * (1. + (p - 1) * c['start']), []
    for g in c['gaps']:
        g = max(g, 1.05 * step)      # the step that found the last root must not reach this one
        pos.append(pos[-1] + g)
        step = p * (0.5 * step + (p - 1) * g)
    n = max(1, len(pos) - c['more'])
    dx = 0.1 * c['unit']
    x0 = 0.25 * c['unit']
    roots = x0 + np.array(pos) * dx
    f = fn(c['kind'], roots, x0 - dx)
    steps = []

    def count(x):
        steps.append(1)
        require(len(steps) < 3000000, 'search does not end')
        return f(x)
    got = np.asarray(R.find_n_roots(count, n=n, x0=x0, dx=dx, p=p, max_iter=100000))
    require(got.shape == (n,), 'number of roots')
    close(got, roots[:n], 1e-6, 1e-6 * dx, 'roots')
    d = np.diff(pos)
    return n > 2 and d.min() < 5



@CHECK.test(rec(n=st.integers(1, 12), w=logu(0.05, 20), p=st.sampled_from([1., 1.01, 1.1])), quick=300, thorough=4000)
def sine(c):
    """the textbook use: roots of sin(w x)"""
    got = R.find_n_roots(lambda x: math.sin(c['w'] * x) if np.ndim(x) == 0 else np.sin(c['w'] * x), n=c['n'], x0=0.01 / c['w'], dx=0.1 / c['w'], p=c['p'], max_iter=200000)
    close(got, math.pi / c['w'] * np.arange(1, c['n'] + 1), 1e-6, 0, 'roots of sine')
    return c['n'] > 1


@CHECK.test(rec(k=num(-0.9, 0.9, 18, 1800), a=num(-3, 3, 12, 600), x0=num(-5, 5, 20, 1000), shape=st.sampled_from([(), (1,), (3,), (2, 2)]), kind=st.sampled_from(['affine', 'cos', 'sqrt'])), quick=500, thorough=10000)
def fixed_points(c):
    k, a = c['k'], c['a']
    c['shape'] = tuple(c['shape'])
    F = {'affine': lambda x, k, a: k * x + a, 'cos': lambda x, k, a: k * np.cos(x) + a, 'sqrt': lambda x, k, a: np.sqrt(abs(a) + 1 + k * np.abs(x))}[c['kind']]
    if c['kind'] == 'sqrt' and k < 0:
        return False
    x0 = c['x0'] if c['shape'] == () else c['x0'] * (1 + np.arange(np.prod(c['shape'])).reshape(c['shape']))
    s = snapshot(x0)
    try:
        x = R.fixed_point_no_accel(F, x0, args=(k, a), maxiter=2000)
    except RuntimeError:
        # a fixed point at zero cannot satisfy the relative criterion
        require(c['kind'] == 'affine' and abs(a) < 1e-300 or c['kind'] == 'cos', 'contraction did not converge')
        z = 0.
        for i in range(3000):
            z = F(z, k, a)
        require(abs(z) < 1e-6, 'contraction with fixed point %g did not converge' % z)
        return False
    same_snapshot(s, x0)
    require(np.shape(x) == c['shape'], 'shape of fixed point %s' % (np.shape(x),))
    z = 0.
    for i in range(3000):
        z = F(z, k, a)
    close(x, np.full(c['shape'], z), 2e-7, 1e-7 * (1 + abs(c['x0'])), 'fixed point')
    return abs(k) > 0.01


@CHECK.test(rec(a=num(1.5, 3, 6, 300), x0=num(0.5, 2), m=st.sampled_from([3, 10, 40])), quick=100, thorough=1000)
def no_convergence(c):
    """an expanding map never converges: RuntimeError, not a wrong value"""
    raises(RuntimeError, lambda: R.fixed_point_no_accel(lambda x: -c['a'] * x, c['x0'], maxiter=c['m']), 'divergent iteration')
    raises(RuntimeError, lambda: R.fixed_point_no_accel(lambda x: -c['a'] * x, np.array([c['x0'], 1.]), maxiter=c['m']), 'divergent iteration of an array')
    return True


@CHECK.test(rec(z=st.lists(num(-1, 2), min_size=1, max_size=5), H=logu(0.1, 100), rl=maybe(num(-20, 20)), scalar=st.booleans(), default=st.booleans()), quick=300, thorough=3000)
def reduced_level(c):
    z = c['z'][0] if c['scalar'] else np.array(c['z'])
    H = 1.0 if c['default'] else c['H']
    kw = {} if c['default'] else dict(H=H)
    if c['rl'] is not None:
        kw['rlzero'] = c['rl']
    s = snapshot(z)
    got = depth_to_reduced_level(z, **kw)
    same_snapshot(s, z)
    close(got, (0 if c['rl'] is None else c['rl']) + (1 if c['rl'] is None else -1) * np.asarray(z) * H, 1e-14, 1e-14, 'reduced level')
    return c['rl'] is not None
