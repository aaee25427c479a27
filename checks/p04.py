"""P04: subdividing data, layers and lengths: invariants and reference interpolation."""
from harness import *
from pwl import points
import geotecha.piecewise.piecewise_linear_1d as pw
from fractions import Fraction as Fr

CHECK = Check('P04', rule='more than one interval, or unequal elements, and at least one interval is divided',
              assumptions=['interval/spacing ratios within 1e-6 of an integer may round either way',
                           'log axes need non-negative values (zeros are replaced as documented)'])

raw = st.lists(num(-3, 6, 18, 900), min_size=2, max_size=6)
opt = rec(dx=maybe(num(0.05, 3, 59, 1000)), min_segments=st.integers(1, 7), just_before=maybe(st.sampled_from([1e-6, 0.01, 0.1, 0.5])),
          logx=st.booleans(), logxzero=st.sampled_from([0.1, 0.01, 0.5]))


def counts(a, b, dx, m):
    """admissible numbers of sub-segments between a and b"""
    r = abs(b - a) / dx
    out = set(max(int(np.floor(r + e)), m) for e in (-1e-6, 1e-6))
    if b < a:   # number is rounded away from zero for descending intervals
        out |= set(max(int(np.ceil(r + e)), m) for e in (-1e-6, 1e-6))
    return out


def walk(got, t, dx, m, jb, what):
    """check the subdivided abscissae (in transformed axes) against the original t; returns interval index and fraction of each point"""
    pos = 0
    loc = []
    for i, (a, b) in enumerate(zip(t[:-1], t[1:])):
        ok = None
        for n in sorted(counts(a, b, dx, m)):
            if jb is None:
                f = np.arange(n) / n
            else:
                f = np.arange(n + 1) / n * (1 - jb)
            seg = got[pos:pos + len(f)]
            nxt = got[pos + len(f)] if pos + len(f) < len(got) else None
            if len(seg) == len(f) and np.all(np.abs(seg - (a + f * (b - a))) <= 1e-9 * (1 + abs(a) + abs(b))) and \
                    nxt is not None and abs(nxt - b) <= 1e-9 * (1 + abs(b)):
                ok = f
                # equal intervals (a==b) are ambiguous; any admissible count is fine
        if ok is None:
            fail('%s: interval %r-%r is not divided as requested (allowed %s): %r' % (what, a, b, sorted(counts(a, b, dx, m)), list(got[pos:])))
        loc += [(i, f) for f in ok]
        pos += len(ok)
    require(pos == len(got) - 1, '%s: extra points %r' % (what, list(got[pos:])))
    return loc + [(len(t) - 2, 1.)]


def logt(v, zero):
    v = np.array([zero if x == 0 else x for x in v], dtype=float)
    return np.log10(v)


def sub_common(c, xy):
    xs = [q[0] for q in xy]
    ys = [q[1] for q in xy]
    o = dict(c['o'])
    if o['logx']:
        if any(0 < abs(x) < 1e-3 for x in xs):
            return None
        if min(xs) < 0:
            raises(ValueError, lambda: pw.subdivide_x_into_segments(xs, **o), 'negative x with logx')
            raises(ValueError, lambda: pw.subdivide_x_y_into_segments(xs, ys, **o), 'negative x with logx')
            label('negative x rejected')
            return None
        t = logt(xs, o['logxzero'])
    else:
        t = np.array(xs, dtype=float)
    if np.ptp(t) < 1e-9:
        return None
    return xs, ys, t, o


@CHECK.test(rec(x=raw, o=opt, arr=st.booleans()), quick=1500, thorough=80000)
def subdivide_x(c):
    r = sub_common(c, [[x, 0] for x in c['x']])
    if r is None:
        return False
    xs, _, t, o = r
    arg = np.array(xs) if c['arr'] else list(xs)
    snap = snapshot(arg)
    got = pw.subdivide_x_into_segments(arg, **o)
    same_snapshot(snap, arg)
    g = np.log10(got) if o['logx'] else np.asarray(got, dtype=float)
    dx = o['dx'] if o['dx'] is not None else 2 * np.ptp(t)
    loc = walk(g, t, dx, o['min_segments'], o['just_before'], 'subdivide_x_into_segments')
    return len(loc) > len(xs)


@CHECK.test(rec(p=points(max_n=6, xlo=0, xhi=3, ylo=0, yhi=6), neg=st.booleans(), desc=st.booleans(), logy=st.booleans(), logyzero=st.sampled_from([0.1, 0.02]),
                o=opt, arr=st.booleans()), quick=1500, thorough=80000)
def subdivide_x_y(c):
    p = [list(q) for q in c['p']]
    if c['neg']:
        p = [[q[0], q[1] - 3] for q in p]
    if c['desc']:
        p = p[::-1]
    r = sub_common(c, p)
    if r is None:
        return False
    xs, ys, t, o = r
    o.update(logy=c['logy'], logyzero=c['logyzero'])
    mk = (lambda v: np.array(v, dtype=float)) if c['arr'] else list
    ax, ay = mk(xs), mk(ys)
    snap = snapshot(ax, ay)
    if c['logy'] and min(ys) < -1e-6:
        raises(ValueError, lambda: pw.subdivide_x_y_into_segments(ax, ay, **o), 'negative y with logy')
        return False
    if c['logy'] and any(0 < abs(y) < 1e-3 for y in ys):
        return False
    gx, gy = pw.subdivide_x_y_into_segments(ax, ay, **o)
    same_snapshot(snap, ax, ay)
    raises(ValueError, lambda: pw.subdivide_x_y_into_segments(xs, ys + [1.]), 'lengths differ')
    require(len(gx) == len(gy), 'lengths of the two results')
    g = np.log10(gx) if o['logx'] else np.asarray(gx, dtype=float)
    dx = o['dx'] if o['dx'] is not None else 2 * np.ptp(t)
    loc = walk(g, t, dx, o['min_segments'], o['just_before'], 'subdivide_x_y_into_segments')
    u = logt(ys, c['logyzero']) if c['logy'] else np.array(ys, dtype=float)
    h = np.log10(gy) if c['logy'] else np.asarray(gy, dtype=float)
    want = [u[i] + f * (u[i + 1] - u[i]) for i, f in loc]
    close(h, want, 1e-9, 1e-9, 'interpolated y')
    # the y version divides x exactly as the x version does
    close(gx, pw.subdivide_x_into_segments(xs, o['dx'], o['min_segments'], o['just_before'], o['logx'], o['logxzero']), 1e-12, 1e-12, 'x of x_y version')
    return len(loc) > len(xs)


@CHECK.test(rec(h=st.lists(st.integers(1, 40), min_size=1, max_size=6), u=st.sampled_from([1., 0.125, 0.25]), segs=st.integers(1, 40), m=st.integers(1, 5)),
            quick=1200, thorough=60000)
def layers(c):
    h = [v * c['u'] for v in c['h']]
    snap = snapshot(h)
    z = np.asarray(pw.layer_coords(h, c['segs'], c['m']))
    same_snapshot(snap, h)
    if c['m'] == 1:
        close(pw.layer_coords(np.array(h), c['segs']), z, 0, 0, 'default min_segs')
    tot = sum(Fr(v) for v in h)
    pos, top = 0, Fr(0)
    for v in h:
        r = Fr(v) * c['segs'] / tot
        n = max(int(r), c['m'])
        opts = {n}
        if abs(r - round(r)) < 1e-9:
            opts |= {max(round(r), c['m']), max(round(r) - 1, c['m'])}
        ok = False
        for n in sorted(opts, reverse=True):
            want = [float(top + Fr(v) * k / n) for k in range(n + 1)]
            if len(z[pos:pos + n + 1]) == n + 1 and np.allclose(z[pos:pos + n + 1], want, rtol=1e-12, atol=1e-12):
                ok = True
                break
        require(ok, 'layer of height %r from %r not divided into %s equal parts: %r' % (v, float(top), sorted(opts), list(z[pos:])))
        pos += n
        top += Fr(v)
    require(pos == len(z) - 1, 'extra depths')
    return len(h) > 1 and len(z) > len(h) + 1


@CHECK.test(rec(n=st.integers(-1, 25), h=num(0.1, 20, 199, 100000), p=st.one_of(st.sampled_from([1, 2, 3, 0.5, 1.0]), num(0.4, 2.2, 18, 100000), st.sampled_from([0, -0.5, -2, 1.001, 0.999])),
                sym=st.booleans()), quick=1200, thorough=60000)
def elements(c):
    n, h, p = c['n'], c['h'], c['p']
    if p <= 0 or n <= 1:
        raises(ValueError, lambda: pw.subdivide_into_elements(n, h, p, c['sym']), 'invalid n or p')
        return False
    e = np.asarray(pw.subdivide_into_elements(n=n, h=h, p=p, symmetry=c['sym']), dtype=float)
    require(len(e) == n, 'number of elements')
    require(np.all(e > 0), 'elements are not positive: %r' % (e,))
    close(e.sum(), h, 1e-9, 0, 'sum of elements')
    k = (n + 1) // 2 if c['sym'] else n
    close(e[1:k] / e[:k - 1], np.full(k - 1, float(p)), 1e-9, 0, 'ratio of successive elements')
    if c['sym']:
        close(e, e[::-1], 1e-12, 0, 'symmetry')
    return p != 1 and n > 2
