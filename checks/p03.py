"""P03: PolyLine algebra against an exact model of one-sided values."""
from harness import *
from pwl import Pwl, points
import geotecha.piecewise.piecewise_linear_1d as pw
from geotecha.piecewise.piecewise_linear_1d import PolyLine
from fractions import Fraction as Fr

CHECK = Check('P03', rule='an operand has a jump, is descending, or the operands have different x ranges',
              assumptions=['x values and jumps are at least 0.005 apart/high (the documented merging tolerance of PolyLine is 1e-5)',
                           'no switchbacks; not all x equal'])


def asc(p):
    return p if p[0][0] <= p[-1][0] and sorted(q[0] for q in p) == [q[0] for q in p] else p[::-1]


class Fn(object):
    """function with one-sided values, built from models and operations"""
    def __init__(self, L, R, xs):
        self.L, self.R, self.xs = L, R, xs

    @classmethod
    def of(cls, p):
        m = Pwl(asc(p))
        return cls(m.L, m.R, m.xs())

    def op(self, other, f):
        if isinstance(other, Fn):
            return Fn(lambda x: f(self.L(x), other.L(x)), lambda x: f(self.R(x), other.R(x)), sorted(set(self.xs + other.xs)))
        o = Fr(other)
        return Fn(lambda x: f(self.L(x), o), lambda x: f(self.R(x), o), self.xs)


def sample(xs):
    out = [xs[0] - 1]
    for a, b in zip(xs[:-1], xs[1:]):
        out += [a, (2 * a + b) / 3, (a + b) / 2]
    return out + [xs[-1], xs[-1] + 1]


def compare(line, fn, what, tol=1e-7):
    require(isinstance(line, PolyLine), '%s is %r, not a PolyLine' % (what, type(line)))
    p = [list(map(float, q)) for q in line.xy]
    a = asc(p)
    xs = [q[0] for q in a]
    require(all(v >= u for u, v in zip(xs[:-1], xs[1:])), '%s has switchbacks: %r' % (what, p))
    got = Pwl(a)
    for x in sample(fn.xs):
        # x positions of the result are floats close to the exact ones: compare one-sided limits away from rounding
        d = Fr(1, 10**10)
        for side, w, g in (('left', fn.L(x), got.L(x - d)), ('right', fn.R(x), got.R(x + d))):
            require(abs(float(w - g)) <= tol * max(1, abs(float(w))), lambda: '%s: value at %s from the %s is %s, expected %s; points %r' % (what, float(x), side, float(g), float(w), p))


def build(p, form):
    if form == 0:
        return PolyLine(p)
    if form == 1:
        return PolyLine([q[0] for q in p], [q[1] for q in p])
    if form == 2:
        return PolyLine(np.array(p))
    s = [(a, b) for a, b in zip(p[:-1], p[1:]) if a[0] != b[0]]
    return PolyLine(*[[g[i][j] for g in s] for i, j in ((0, 0), (1, 0), (0, 1), (1, 1))])


def trim(p):
    """drop jumps at the two ends (they cannot be held in x1_x2_y1_y2 form)"""
    while p[0][0] == p[1][0]:
        p = p[1:]
    while p[-1][0] == p[-2][0]:
        p = p[:-1]
    return p


def mk(d):
    p = d['p']
    if d['form'] == 3:
        p = trim(p)
    if d['rev']:
        p = p[::-1]
    return build(p, d['form']), p


# ordinates on a 0.02 grid: jumps are either zero or well above the merging tolerance
pts = points(max_n=6, xlo=-2, xhi=2)
line = rec(p=pts, form=st.integers(0, 3), rev=st.booleans())
scalar = st.one_of(st.integers(-4, 4), num(-3, 3), st.sampled_from([0.5, 2.0, 1e-3]))
NE = lambda v: v if v else 1


def close_x(ps):
    """x positions must be identical or well separated"""
    xs = sorted(set(q[0] for p in ps for q in p))
    return any(0 < b - a < 0.004 for a, b in zip(xs[:-1], xs[1:]))


# powers of two: scaling is exact
unit = st.sampled_from([0, 0, 0, -10, -20, -33, 10, 20])


def grow(p, i, j):
    return [[q[0] * 2. ** i, q[1] * 2. ** j] for q in p]


def shrink(l, i, j):
    return PolyLine([v / 2. ** i for v in l.x], [v / 2. ** j for v in l.y])


def special(*ps):
    return any(len(set(q[0] for q in p)) < len(p) or p[0][0] > p[-1][0] for p in ps) or len(set((min(p)[0], max(p)[0]) for p in ps)) > 1


@CHECK.test(rec(a=line, b=line, sx=unit, sy=unit), quick=1200, thorough=60000)
def add_subtract(c):
    a, pa = mk(c['a'])
    b, pb = mk(c['b'])
    if close_x([pa, pb]):
        return False
    i, j = c['sx'], c['sy']
    A, B = [mk(dict(c[k], p=grow(c[k]['p'], i, j)))[0] for k in 'ab']
    if (i, j) != (0, 0):
        compare(shrink(A + B, i, j), Fn.of(pa).op(Fn.of(pb), lambda u, v: u + v), 'a + b for other units')
        compare(shrink(A - B, i, j), Fn.of(pa).op(Fn.of(pb), lambda u, v: u - v), 'a - b for other units')
    fa, fb = Fn.of(pa), Fn.of(pb)
    ra, rb = a.xy.copy(), b.xy.copy()
    compare(a + b, fa.op(fb, lambda u, v: u + v), 'a + b')
    compare(a - b, fa.op(fb, lambda u, v: u - v), 'a - b')
    compare(b - a, fb.op(fa, lambda u, v: u - v), 'b - a')
    close(a.xy, ra, 0, 0, 'operand a after + -')
    close(b.xy, rb, 0, 0, 'operand b after + -')
    return special(pa, pb)


@CHECK.test(rec(a=line, k=scalar, np_=st.booleans()), quick=1000, thorough=40000)
def scalars(c):
    a, pa = mk(c['a'])
    k = c['k']
    kk = np.float64(k) if c['np_'] else k
    xs, ys = np.array(a.xy).T.copy()
    def chk(r, wy, what):
        require(isinstance(r, PolyLine), what + ' is not a PolyLine')
        close(r.x, xs, 0, 0, what + ' x')
        close(r.y, wy, 1e-13, 1e-13, what + ' y')
        r.xy[:] = 77.  # results own their data
        close(a.x, xs, 0, 0, what + ': operand x')
        close(a.y, ys, 0, 0, what + ': operand y')
    chk(a + kk, ys + k, 'a + k')
    chk(a - kk, ys - k, 'a - k')
    chk(a * kk, ys * k, 'a * k')
    if not c['np_']:
        chk(k + a, k + ys, 'k + a')
        chk(k - a, k - ys, 'k - a')
        chk(k * a, k * ys, 'k * a')
    if k:
        chk(a / kk, ys / k, 'a / k')
    if np.all(ys != 0) and not c['np_']:
        chk(k / a, k / ys, 'k / a')
    raises(TypeError, lambda: a * a, 'product of PolyLines')
    raises(TypeError, lambda: a / a, 'quotient of PolyLines')
    return special(pa) or k < 0


ops = st.lists(st.tuples(st.sampled_from(['+', '-', 'r-', '*', '/', '+k', '-k', 'k-']), line, st.sampled_from([-2, 0.5, 3, -1])), min_size=1, max_size=4)


@CHECK.test(rec(a=line, ops=ops), quick=600, thorough=30000)
def chains(c):
    """sequences of operations"""
    v, p = mk(c['a'])
    ps = [p]
    f = Fn.of(p)
    lines = []
    for o, d, k in c['ops']:
        b, pb = mk(d)
        lines.append((b, pb, b.xy.copy()))
        ps.append(pb)
    if close_x(ps):
        return False
    for (o, d, k), (b, pb, _) in zip(c['ops'], lines):
        fb = Fn.of(pb)
        if o == '+':
            v, f = v + b, f.op(fb, lambda x, y: x + y)
        elif o == '-':
            v, f = v - b, f.op(fb, lambda x, y: x - y)
        elif o == 'r-':
            v, f = b - v, fb.op(f, lambda x, y: x - y)
        elif o == '*':
            v, f = v * k, f.op(k, lambda x, y: x * y)
        elif o == '/':
            v, f = v / k, f.op(k, lambda x, y: x / y)
        elif o == '+k':
            v, f = v + k, f.op(k, lambda x, y: x + y)
        elif o == '-k':
            v, f = v - k, f.op(k, lambda x, y: x - y)
        else:
            v, f = k - v, f.op(k, lambda x, y: y - x)
    # jumps smaller than the merging tolerance may vanish: 1e-4
    compare(v, f, 'after %s' % [o[0] for o in c['ops']], tol=1e-4)
    for b, pb, xy in lines:
        close(b.xy, xy, 0, 0, 'operand')
    return len(c['ops']) > 1


@CHECK.test(rec(a=line, arr=st.booleans()), quick=800, thorough=30000)
def forms(c):
    """x-y form <-> x1-x2-y1-y2 form, repr, equality, argument checks"""
    a, pa = mk(c['a'])
    t = trim(asc(pa))
    s = [(u, v) for u, v in zip(pa[:-1], pa[1:]) if u[0] != v[0]]
    want4 = [[g[i][j] for g in s] for i, j in ((0, 0), (1, 0), (0, 1), (1, 1))]
    close(np.array([a.x1, a.x2, a.y1, a.y2]), want4, 0, 0, 'x1, x2, y1, y2')
    got = a.x1_x2_y1_y2
    close(np.array(got), want4, 0, 0, 'x1_x2_y1_y2')
    close(a.x, [q[0] for q in (pa if c['a']['form'] != 3 else [q for q in a.xy])], 0, 0, 'x')
    b = PolyLine(*want4)
    compare(b, Fn.of(t), 'PolyLine from its own x1_x2_y1_y2')
    compare(a, Fn.of(pa), 'PolyLine')
    x, y = pw.convert_x1_x2_y1_y2_to_x_y(*[np.array(v) if c['arr'] else v for v in want4])
    close(x, b.x, 0, 0, 'convert_x1_x2_y1_y2_to_x_y x')
    close(y, b.y, 0, 0, 'convert_x1_x2_y1_y2_to_x_y y')
    g = pw.convert_x_y_to_x1_x2_y1_y2([q[0] for q in pa], [q[1] for q in pa])
    close(np.array(g), want4, 0, 0, 'convert_x_y_to_x1_x2_y1_y2')
    g2 = pw.convert_x_y_to_x1_x2_y1_y2(x, y)
    close(np.array(g2), want4, 0, 0, 'round trip of segments')
    # repr and equality
    np_array = np.array
    e = eval(repr(a), {'PolyLine': PolyLine, 'array': np_array, 'np': np})
    close(e.xy, a.xy, 1e-7, 1e-7, 'eval(repr())')
    require(e == a and not (e != a), 'eval(repr(a)) == a')
    r = PolyLine(a.xy.copy())
    require(r == a and not (a != r), 'copy is equal')
    for k in range(len(a.xy)):
        for j in (0, 1):
            d = a.xy.copy()
            d[k, j] += 0.01 * (1 + abs(d[k, j])) * (-1)**k
            require(PolyLine(d) != a and not (PolyLine(d) == a), 'PolyLines with one different %s compare equal' % ('ordinate' if j else 'abscissa'))
    require(PolyLine(np.vstack([a.xy, [a.xy[-1, 0] + (a.xy[-1, 0] - a.xy[0, 0]), 1.]])) != a, 'PolyLines of different length compare equal')
    raises(TypeError, lambda: PolyLine([1, 2, 3], [1, 2, 3], [1, 2, 3]), '3 arguments')
    raises(TypeError, lambda: PolyLine([1, 2, 3], [1, 2]), 'lengths differ')
    raises(TypeError, lambda: PolyLine(want4[0] + [9], want4[1], want4[2], want4[3]), 'lengths differ (4 args)')
    raises(TypeError, lambda: PolyLine([[1, 2]]), 'single point')
    if len(s) > 1:
        bad = [v[:] for v in want4]
        bad[0][1] += 0.5
        raises(ValueError, lambda: pw.convert_x1_x2_y1_y2_to_x_y(*bad), 'x1[1:] != x2[:-1]')
    return special(pa)


@CHECK.test(rec(ls=st.lists(line, min_size=1, max_size=4), sx=unit, sy=st.lists(unit, min_size=4, max_size=4)), quick=600, thorough=25000)
def common_x(c):
    L = [mk(d) for d in c['ls']]
    ps = [p for _, p in L]
    if len(L) > 1 and not close_x(ps):
        # each line in units of its own
        out = pw.polyline_make_x_common(*[mk(dict(d, p=grow(d['p'], c['sx'], j)))[0] for d, j in zip(c['ls'], c['sy'])])
        for o, p, j in zip(out, ps, c['sy']):
            compare(shrink(o, c['sx'], j), Fn.of(p), 'line after polyline_make_x_common, other units')
    before = [l.xy.copy() for l, _ in L]
    if close_x(ps):
        return False
    out = pw.polyline_make_x_common(*[l for l, _ in L])
    if len(L) == 1:
        compare(out, Fn.of(ps[0]), 'polyline_make_x_common of one line')
        return False
    require(len(out) == len(L), 'number of lines')
    for o, (l, p), xy in zip(out, L, before):
        compare(o, Fn.of(p), 'line after polyline_make_x_common')
        close(l.xy, xy, 0, 0, 'input of polyline_make_x_common')
    for o in out[1:]:
        close(o.x1, out[0].x1, 1e-12, 1e-9, 'x1 of made-common lines')
        close(o.x2, out[0].x2, 1e-12, 1e-9, 'x2 of made-common lines')
    allx = sorted(set(q[0] for p in ps for q in p))
    close(sorted(set(map(float, out[0].x))), allx, 1e-9, 2e-5, 'x values')
    sw = PolyLine([0, 1, 0.5], [0, 1, 2])
    raises(TypeError, lambda: pw.polyline_make_x_common(L[0][0], sw), 'switchback in polyline_make_x_common')
    raises(TypeError, lambda: L[0][0] + sw, 'switchback in addition')
    return special(*ps)


@CHECK.test(rec(p=points(max_n=5), extra=st.lists(st.tuples(st.integers(0, 20), grid(0.05, 0.95, 18)), min_size=0, max_size=5), rev=st.booleans()), quick=800, thorough=30000)
def superfluous(c):
    """points inserted on the lines disappear again, and the function is unchanged"""
    p = [list(q) for q in c['p']]
    for i, f in c['extra']:
        k = i % (len(p) - 1)
        (x0, y0), (x1, y1) = p[k], p[k + 1]
        p.insert(k + 1, [x0 + f * (x1 - x0), y0 + f * (y1 - y0)])
    if c['rev']:
        p = p[::-1]
    x, y = [q[0] for q in p], [q[1] for q in p]
    snap = snapshot(x, y)
    gx, gy = pw.remove_superfluous_from_x_y(x, y)
    same_snapshot(snap, x, y)
    got = [[float(u), float(v)] for u, v in zip(gx, gy)]
    require(all(q in p for q in got), 'a point was invented: %r' % (got,))
    ends = [i for i in (0, -1)]
    for i in ends:
        require(got[i] == p[i], 'end point %r became %r' % (p[i], got[i]))
    # same function
    m0, m1 = Pwl(asc(p)), Pwl(asc(got))
    for v in sample(m0.xs()):
        e = Fr(1, 10**13)
        for s in ('L', 'R'):
            w, g = float(getattr(m0, s)(v)), float(getattr(m1, s)(v))
            require(abs(w - g) <= 1e-6 * max(1, abs(w)), 'value at %s changed from %s to %s: %r -> %r' % (float(v), w, g, p, got))
    # points inside a straight stretch are gone (jumps made of several coincident points may keep one)
    for a, b, d in zip(got[:-2], got[1:-1], got[2:]):
        A, B, D = [np.array(t) for t in (a, b, d)]
        if len(set((a[0], b[0], d[0]))) < 3:
            continue
        dist = abs((D - A)[0] * (B - A)[1] - (D - A)[1] * (B - A)[0]) / np.hypot(*(D - A))
        require(dist > 1e-9, 'superfluous point left: %r' % (got,))
    return len(c['extra']) > 0
