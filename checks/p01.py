"""P01: interpolation, predicates and segment classification of piecewise-linear data."""
from harness import *
from pwl import Pwl, points, place, positions
import geotecha.piecewise.piecewise_linear_1d as pw
from fractions import Fraction as Fr

CHECK = Check('P01', rule='interp*: the data has a jump or an evaluation point lies on a node or outside the data; '
              'predicates: not strictly monotonic; classification: at least two segment kinds present; force*: x has repeated values',
              assumptions=['x data without switchbacks for interpolation and forcing; values on grids of 1/8, 1/10 or finer',
                           'tolerance 1e-9 relative to the largest ordinate/slope'])


def jumps(p):
    return any(a[0] == b[0] and a[1] != b[1] for a, b in zip(p[:-1], p[1:]))


def ref_seg(xs, ys, v, choose_max):
    """documented rule for arbitrary x: first/last segment with x between its ends (steps ignored)."""
    xs = [Fr(x) for x in xs]
    ys = [Fr(y) for y in ys]
    v = Fr(v)
    c = [i for i in range(len(xs) - 1) if xs[i] != xs[i + 1] and min(xs[i], xs[i + 1]) <= v <= max(xs[i], xs[i + 1])]
    if c:
        i = c[-1 if choose_max else 0]
        return i, ys[i] + (ys[i + 1] - ys[i]) * (v - xs[i]) / (xs[i + 1] - xs[i])
    return None, (ys[0] if abs(v - xs[0]) < abs(v - xs[-1]) else ys[-1])


@CHECK.test(rec(p=points(), t=positions, cm=st.booleans(), rev=st.booleans(), form=st.sampled_from(['list', 'array']), scalar=st.booleans()), quick=1600, thorough=80000)
def interp_xy(c):
    p = c['p'][::-1] if c['rev'] else c['p']
    xs, ys = [q[0] for q in p], [q[1] for q in p]
    xi = place(c['p'], c['t'], 0.3)
    if c['scalar']:
        xi = xi[:1]
    want = [float(ref_seg(xs, ys, v, c['cm'])[1]) for v in xi]
    ax, ay = (xs, ys) if c['form'] == 'list' else (np.array(xs), np.array(ys))
    snap = snapshot(ax, ay)
    arg = xi[0] if c['scalar'] else xi
    tol = dict(rtol=1e-9, atol=1e-9 * max(1, max(map(abs, ys))))
    close(pw.interp_x_y(ax, ay, arg, choose_max=c['cm']), want, what='interp_x_y', **tol)
    if not c['cm']:
        close(pw.interp_x_y(ax, ay, arg), want, what='interp_x_y default choose_max', **tol)
    pl = pw.PolyLine(p)
    close(pw.pinterp_x_y(pl, arg, choose_max=c['cm']), want, what='pinterp_x_y', **tol)
    same_snapshot(snap, ax, ay)
    # segments
    s = pw.segment_containing_xi(ax, arg, choose_max=c['cm'])
    for v, g in zip(xi, s):
        i = ref_seg(xs, ys, v, c['cm'])[0]
        require(list(g) == ([] if i is None else [i]), 'segment_containing_xi(%r, %r, choose_max=%r)=%r expected %r' % (xs, v, c['cm'], g, i))
    return jumps(p) or any(v in xs for v in xi) or any(not min(xs) <= v <= max(xs) for v in xi)


@CHECK.test(rec(p=points(), t=positions, cm=st.booleans()), quick=1000, thorough=50000)
def interp_segments(c):
    """x1, x2, y1, y2 data: a layered profile."""
    p = c['p']
    segs = [(a, b) for a, b in zip(p[:-1], p[1:]) if a[0] != b[0]]
    x1, x2, y1, y2 = [[g[i][j] for g in segs] for i, j in ((0, 0), (1, 0), (0, 1), (1, 1))]
    flat = [q for g in segs for q in g]
    m = Pwl(flat)
    xi = place(p, c['t'], 0.3)
    want = [float(m.seg_val(v, c['cm'])) for v in xi]
    snap = snapshot(x1, x2, y1, y2)
    tol = dict(rtol=1e-9, atol=1e-9 * 5)
    close(pw.interp_x1_x2_y1_y2(x1, x2, y1, y2, xi, choose_max=c['cm']), want, what='interp_x1_x2_y1_y2', **tol)
    close(pw.interp_x1_x2_y1_y2(np.array(x1), np.array(x2), np.array(y1), np.array(y2), xi[0], choose_max=c['cm']), want[:1], what='interp_x1_x2_y1_y2', **tol)
    pl = pw.PolyLine(x1, x2, y1, y2)
    close(pw.pinterp_x1_x2_y1_y2(pl, xi, choose_max=c['cm']), want, what='pinterp_x1_x2_y1_y2', **tol)
    if not c['cm']:
        close(pw.pinterp_x1_x2_y1_y2(pl, xi), want, what='pinterp_x1_x2_y1_y2 default', **tol)
        close(pw.pinterp_x_y(pl, xi), want, what='pinterp_x_y of segment data', **tol)
    same_snapshot(snap, x1, x2, y1, y2)
    return jumps(p) or any(v in [q[0] for q in p] for v in xi)


@CHECK.test(rec(p=points(), q=points(), ta=positions, tb=positions, am=maybe(st.booleans()), bm=maybe(st.booleans())), quick=500, thorough=20000)
def interp_composite(c):
    """value(a at xai) * value(b at xbi), one row per xbi and one column per xai."""
    a, b = pw.PolyLine(c['p']), pw.PolyLine(c['q'])
    xai, xbi = place(c['p'], c['ta'], .2), place(c['q'], c['tb'], .2)
    kw = {}
    if c['am'] is not None:
        kw['achoose_max'] = c['am']
    if c['bm'] is not None:
        kw['bchoose_max'] = c['bm']
    am = bool(c['am'])                                   # documented default False
    bm = True if c['bm'] is None else c['bm']            # documented default True
    ma = Pwl(c['p'])
    segs = [(u, v) for u, v in zip(c['q'][:-1], c['q'][1:]) if u[0] != v[0]]
    mb = Pwl([q for g in segs for q in g])
    want = [[float(ma.seg_val(u, am) * mb.seg_val(v, bm)) for u in xai] for v in xbi]
    got = pw.pinterp_xa_ya_multipy_x1b_x2b_y1b_y2b(a, b, xai, xbi, **kw)
    close(got, want, rtol=1e-9, atol=1e-8, what='pinterp_xa_ya_multipy')
    got = pw.interp_xa_ya_multipy_x1b_x2b_y1b_y2b(a.x, a.y, b.x1, b.x2, b.y1, b.y2, xai, xbi, **kw)
    close(got, want, rtol=1e-9, atol=1e-8, what='interp_xa_ya_multipy')
    return len(xai) != len(xbi) or jumps(c['p']) or jumps(c['q'])


seqs = st.lists(st.integers(-3, 3), min_size=2, max_size=8)


@CHECK.test(rec(x=seqs, kind=st.sampled_from(['any', 'up', 'down']), form=st.sampled_from(['int', 'float', 'array']), end=st.booleans()), quick=1500, thorough=60000)
def predicates(c):
    x = c['x']
    if c['kind'] == 'up':
        x = sorted(x)
    if c['kind'] == 'down':
        x = sorted(x, reverse=True)
    v = x if c['form'] == 'int' else [float(t) / 4 for t in x]
    if c['form'] == 'array':
        v = np.array(v)
    snap = snapshot(v)
    d = [b - a for a, b in zip(x[:-1], x[1:])]
    for name, want in (('strictly_increasing', all(t > 0 for t in d)), ('strictly_decreasing', all(t < 0 for t in d)),
                       ('non_increasing', all(t <= 0 for t in d)), ('non_decreasing', all(t >= 0 for t in d)),
                       ('has_steps', any(t == 0 for t in d))):
        got = getattr(pw, name)(v)
        require(bool(got) == want, '%s(%r) returned %r' % (name, x, got))
    nz = [t for t in d if t]
    if nz:
        got = pw.is_initially_increasing(v)
        require(bool(got) == (nz[0] > 0), 'is_initially_increasing(%r) returned %r' % (x, got))
        # runs of non-increasing / non-decreasing segments, greedy from the left
        A = []
        cur = None
        for i, t in enumerate(d):
            s = (t > 0) - (t < 0)
            if cur is None and not A:
                A.append([])
                cur = (nz[0] > 0) - (nz[0] < 0)
            if s and s != cur:
                A.append([])
                cur = s
            A[-1].append(i)
        if c['end']:
            A = [r + [r[-1] + 1] for r in A]
        got = pw.non_increasing_and_non_decreasing_parts(v, include_end_point=c['end'])
        require([list(map(int, r)) for r in got] == A, 'non_increasing_and_non_decreasing_parts(%r, %r) returned %r expected %r' % (x, c['end'], got, A))
    same_snapshot(snap, v)
    return any(t == 0 for t in d) or len(set(t > 0 for t in d)) > 1


@CHECK.test(rec(p=points(max_n=8), rev=st.booleans(), keep=st.booleans(), eps=st.sampled_from([1e-6, 1e-9, 1e-3]), form=st.sampled_from(['list', 'array']), usey=st.booleans()), quick=800, thorough=30000)
def forcing(c):
    p = c['p'][::-1] if c['rev'] else c['p']
    x, y = [q[0] for q in p], [q[1] for q in p]
    ax, ay = (x, y) if c['form'] == 'list' else (np.array(x), np.array(y))
    snap = snapshot(ax, ay)
    asc = sorted(x) == x
    wx, wy = (x, y) if asc else (x[::-1], y[::-1])
    gx, gy = pw.force_non_decreasing(ax, ay)
    close(gx, wx, 0, 0, 'force_non_decreasing x')
    close(gy, wy, 0, 0, 'force_non_decreasing y')
    gx, gy = pw.force_strictly_increasing(ax, ay, keep_end_points=c['keep'], eps=c['eps'])
    same_snapshot(snap, ax, ay, what='argument of force_*')
    require(len(gx) == len(wx), 'length changed')
    require(all(b > a for a, b in zip(gx[:-1], gx[1:])), 'force_strictly_increasing(%r, keep_end_points=%r, eps=%r) returned %r' % (x, c['keep'], c['eps'], list(gx)))
    close(gx, wx, 0, c['eps'] * len(x) * 1.01 + 1e-15, 'force_strictly_increasing moved a point too far')
    close(gy, wy, 0, 0, 'force_strictly_increasing y')
    # points that are not part of a step, and the documented end of each step, stay put
    n = len(wx)
    for i in range(n):
        if c['keep']:
            fixed = i == n - 1 or wx[i + 1] != wx[i]
        else:
            fixed = i == 0 or wx[i - 1] != wx[i]
        if fixed:
            require(gx[i] == wx[i], 'point %d of %r moved from %r to %r (keep_end_points=%r)' % (i, wx, wx[i], gx[i], c['keep']))
    bad = x + [x[0] - (x[-1] - x[0])] + [x[0] + (x[-1] - x[0]) / 2.]
    raises(ValueError, lambda: pw.force_strictly_increasing(bad), 'force_strictly_increasing of switchback data')
    raises(ValueError, lambda: pw.force_non_decreasing(bad), 'force_non_decreasing of switchback data')
    return len(set(x)) < len(x)


@CHECK.test(rec(p=points(max_n=8, ylo=-1, yhi=1), t=positions, s=st.booleans(), r=st.booleans(), cm=st.booleans(), ymod=st.integers(2, 4)), quick=1200, thorough=50000)
def classification(c):
    p = [[x, float(int(y * 10) % c['ymod'])] for x, y in c['p']]
    x, y = [q[0] for q in p], [q[1] for q in p]
    n = len(x) - 1
    kind = {}
    for i in range(n):
        dx, dy = x[i + 1] != x[i], y[i + 1] != y[i]
        kind[i] = {(1, 1): 'r', (1, 0): 'c', (0, 1): 's', (0, 0): '-'}[(int(dx), int(dy))]
    R, C, S = [[i for i in range(n) if kind[i] == k] for k in 'rcs']
    gr, gc, gs = pw.ramps_constants_steps(x, y)
    for name, g, w in (('ramps', gr, R), ('constants', gc, C), ('steps', gs, S)):
        require(list(map(int, g)) == w, 'ramps_constants_steps(%r, %r): %s %r expected %r' % (x, y, name, g, w))
    for fn, w in ((pw.start_index_of_ramps, R), (pw.start_index_of_constants, C), (pw.start_index_of_steps, S)):
        require(list(map(int, fn(x, y))) == w, '%s(%r,%r) = %r expected %r' % (fn.__name__, x, y, fn(x, y), w))
    xi = place(p, c['t'], .2)
    for oe in (False, True):
        for sub in (None, R, C):
            if sub == []:
                continue
            got = pw.segments_less_than_xi(x, xi, subset=sub, or_equal_to=oe)
            for v, g in zip(xi, got):
                w = [i for i in (range(n) if sub is None else sub) if (x[i + 1] <= v if oe else x[i + 1] < v)]
                require(list(map(int, g)) == w, 'segments_less_than_xi(%r, %r, %r, %r) = %r expected %r' % (x, v, sub, oe, g, w))
    got = pw.segment_containing_also_segments_less_than_xi(x, y, xi, steps_or_equal_to=c['s'], ramp_const_or_equal_to=c['r'], choose_max=c['cm'])
    for k, v in enumerate(xi):
        le = lambda i, eq: x[i + 1] <= v if eq else x[i + 1] < v
        cont = [i for i in range(n) if x[i] != x[i + 1] and x[i] <= v <= x[i + 1]]
        cont = ([cont[-1 if c['cm'] else 0]] if cont else [])
        want = [[i for i in R if le(i, c['r'])], [i for i in C if le(i, c['r'])], [i for i in S if le(i, c['s'])],
                [i for i in cont if kind[i] == 'r'], [i for i in cont if kind[i] == 'c']]
        for name, g, w in zip(['ramps <', 'constants <', 'steps <', 'ramp containing', 'constant containing'], got, want):
            require(list(map(int, g[k])) == w, '%s %r in x=%r y=%r: %r expected %r' % (name, v, x, y, g[k], w))
    return len([1 for q in (R, C, S) if q]) >= 2


@CHECK.test(rec(p=points(max_n=8), t=st.lists(st.tuples(st.integers(0, 12), grid(0, 1, 64), st.integers(0, 12), grid(0, 1, 64), st.integers(0, 3)), min_size=1, max_size=4)), quick=600, thorough=20000)
def between(c):
    p = c['p']
    x = [q[0] for q in p]
    n = len(x) - 1
    ab = []
    for i, f, j, g, k in c['t']:
        a = place(p, [i if k & 1 else f])[0]
        b = place(p, [j if k & 2 else g])[0]
        if a != b:
            ab.append((min(a, b), max(a, b)))
    if not ab:
        return False
    xi, xj = [t[0] for t in ab], [t[1] for t in ab]
    both, ionly, jonly, betw = pw.segments_between_xi_and_xj(x, xi, xj)
    for k, (a, b) in enumerate(ab):
        ia = [i for i in range(n) if x[i] != x[i + 1] and x[i] <= a <= x[i + 1]][-1]
        ib = [i for i in range(n) if x[i] != x[i + 1] and x[i] <= b <= x[i + 1]][0]
        want = ([ia], [], [], []) if ia == ib else ([], [ia], [ib], list(range(ia + 1, ib)))
        got = tuple(list(map(int, g[k])) for g in (both, ionly, jonly, betw))
        require(got == tuple(want), 'segments_between_xi_and_xj(%r, %r, %r) = %r expected %r' % (x, a, b, got, want))
    return len(set(x)) < len(x) or any(a in x or b in x for a, b in ab)
