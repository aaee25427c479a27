"""P02: integrals and averages of piecewise-linear data against exact rational integration."""
from harness import *
from pwl import Pwl, points, place, positions, product_integral
import geotecha.piecewise.piecewise_linear_1d as pw
from fractions import Fraction as Fr

CHECK = Check('P02', rule='the data has a jump, or a limit lies on a node, or limits span several segments',
              assumptions=['limits within the data and xi < xj (documented domain of segments_between_xi_and_xj)',
                           'tolerance 1e-11 of the largest term of the closed-form antiderivative'])

pairs = st.lists(st.tuples(st.integers(0, 12), grid(0, 1, 64), st.integers(0, 12), grid(0, 1, 999), st.integers(0, 3)), min_size=1, max_size=5)


def limits(p, t):
    ab = []
    for i, f, j, g, k in t:
        a = place(p, [i if k & 1 else f])[0]
        b = place(p, [j if k & 2 else g])[0]
        if a == b:
            a, b = p[0][0], p[-1][0]
        ab.append((min(a, b), max(a, b)))
    return [v[0] for v in ab], [v[1] for v in ab]


def segments(p):
    s = [(a, b) for a, b in zip(p[:-1], p[1:]) if a[0] != b[0]]
    return [[g[i][j] for g in s] for i, j in ((0, 0), (1, 0), (0, 1), (1, 1))]


def interesting(p, xi, xj):
    xs = [q[0] for q in p]
    return len(set(xs)) < len(xs) or any(v in xs for v in xi + xj) or any(any(a < x < b for x in xs) for a, b in zip(xi, xj))


@CHECK.test(rec(p=points(), t=pairs, arr=st.booleans()), quick=1200, thorough=60000)
def integrate_and_average(c):
    p = c['p']
    xi, xj = limits(p, c['t'])
    m = Pwl(p)
    I = [float(m.integral(a, b)) for a, b in zip(xi, xj)]
    A = [float(m.integral(a, b) / (Fr(b) - Fr(a))) for a, b in zip(xi, xj)]
    x, y = [q[0] for q in p], [q[1] for q in p]
    if c['arr']:
        x, y = np.array(x), np.array(y)
    x1, x2, y1, y2 = segments(p)
    pl, ps = pw.PolyLine(p), pw.PolyLine(x1, x2, y1, y2)
    snap = snapshot(x, y, xi, xj)
    S = (p[-1][0] - p[0][0]) * 5
    ti = dict(rtol=1e-11, atol=1e-11 * S)
    # rounding of an average grows as the interval shrinks
    ta = dict(rtol=1e-9, atol=1e-11 * S / min(b - a for a, b in zip(xi, xj)))
    for name, got in (('integrate_x_y', pw.integrate_x_y_between_xi_xj(x, y, xi, xj)),
                      ('pintegrate_x_y', pw.pintegrate_x_y_between_xi_xj(pl, xi, xj)),
                      ('pintegrate_x_y of segments', pw.pintegrate_x_y_between_xi_xj(ps, xi, xj)),
                      ('integrate_x1_x2_y1_y2', pw.integrate_x1_x2_y1_y2_between_xi_xj(x1, x2, y1, y2, xi, xj)),
                      ('pintegrate_x1_x2_y1_y2', pw.pintegrate_x1_x2_y1_y2_between_xi_xj(ps, np.array(xi), np.array(xj))),
                      ('pintegrate_x1_x2_y1_y2 of points', pw.pintegrate_x1_x2_y1_y2_between_xi_xj(pl, xi, xj))):
        close(got, I, what=name, **ti)
    for name, got in (('avg_x_y', pw.avg_x_y_between_xi_xj(x, y, xi, xj)),
                      ('pavg_x_y', pw.pavg_x_y_between_xi_xj(pl, xi, xj)),
                      ('avg_x1_x2_y1_y2', pw.avg_x1_x2_y1_y2_between_xi_xj(x1, x2, y1, y2, xi, xj)),
                      ('pavg_x1_x2_y1_y2', pw.pavg_x1_x2_y1_y2_between_xi_xj(ps, xi, xj))):
        close(got, A, what=name, **ta)
    close(pw.integrate_x_y_between_xi_xj(x, y, xi[0], xj[0]), I[:1], what='scalar limits', **ti)
    same_snapshot(snap, x, y, xi, xj)
    return interesting(p, xi, xj)


def ptol(a, b, X):
    """size of the largest term in the antiderivative of the product"""
    def s(p):
        sl = max(abs((u[1] - v[1]) / (u[0] - v[0])) for u, v in zip(p[:-1], p[1:]) if u[0] != v[0])
        return sl * X + max(abs(q[1]) for q in p)
    return 1e-11 * max(1e-3, s(a) * s(b) * X)


def two_on_same_x(c):
    """second data set with the x values of the first (own y values)"""
    p = c['p']
    ys = c['ys']
    return [[q[0], ys[i % len(ys)]] for i, q in enumerate(p)]


@CHECK.test(rec(p=points(), ys=st.lists(num(-5, 5, 20, 1000), min_size=7, max_size=7), t=pairs), quick=900, thorough=40000)
def product_same_layers(c):
    p, q = c['p'], two_on_same_x(c)
    sp, sq = segments(p), segments(q)
    xi, xj = limits(p, c['t'])
    mp, mq = [Pwl([w for g in zip(zip(s[0], s[2]), zip(s[1], s[3])) for w in g]) for s in (sp, sq)]
    I = [float(product_integral(mp, mq, a, b)) for a, b in zip(xi, xj)]
    X = max(abs(p[0][0]), abs(p[-1][0]))
    got = pw.integrate_x1a_x2a_y1a_y2a_multiply_x1b_x2b_y1b_y2b_between(*(sp + sq + [xi, xj]))
    close(got, I, rtol=1e-11, atol=ptol(p, q, X), what='integrate product')
    got = pw.integrate_x1a_x2a_y1a_y2a_multiply_x1b_x2b_y1b_y2b_between(*([np.array(v) for v in sp + sq] + [xi[0], xj[0]]))
    close(got, I[:1], rtol=1e-11, atol=ptol(p, q, X), what='integrate product, scalar limits')
    if len(sp[0]) > 1:
        other = [[v + (0.25 if i == len(sp[0]) - 1 else 0) for i, v in enumerate(sp[1])]]
        raises(ValueError, lambda: pw.integrate_x1a_x2a_y1a_y2a_multiply_x1b_x2b_y1b_y2b_between(*(sp + [sq[0], other[0], sq[2], sq[3], xi, xj])), 'layers that do not match')
    return interesting(p, xi, xj)


def rescale(p, lo, hi):
    a, b = p[0][0], p[-1][0]
    return [[round(lo + (q[0] - a) * (hi - lo) / (b - a), 3), q[1]] for q in p]


def ok(p):
    xs = [q[0] for q in p]
    return all(b >= a for a, b in zip(xs[:-1], xs[1:])) and all(b == a or b - a > 0.002 for a, b in zip(xs[:-1], xs[1:])) and xs[0] < xs[-1]


@CHECK.test(rec(p=points(max_n=5), q=points(max_n=5), hi=st.sampled_from([1.0, 2.0, 3.5]), t=pairs), quick=500, thorough=20000)
def product_polylines(c):
    """PolyLines over the same range with different interior points."""
    p, q = rescale(c['p'], 0, c['hi']), rescale(c['q'], 0, c['hi'])
    if not (ok(p) and ok(q)):
        return False
    xi, xj = limits(p, c['t'])
    mp, mq = Pwl(p), Pwl(q)
    I = [float(product_integral(mp, mq, a, b)) for a, b in zip(xi, xj)]
    a, b = pw.PolyLine(p), pw.PolyLine(q)
    got = pw.pintegrate_x1a_x2a_y1a_y2a_multiply_x1b_x2b_y1b_y2b_between(a, b, xi, xj)
    close(got, I, rtol=1e-10, atol=1e2 * ptol(p, q, c['hi']), what='pintegrate product')
    return interesting(p, xi, xj) or interesting(q, xi, xj)


load = rec(a=points(max_n=5, xlo=0, xhi=2), b=points(max_n=4), om=maybe(st.tuples(num(-3, 3), num(-3, 3))))


@CHECK.test(rec(loads=st.lists(load, min_size=1, max_size=3), m=points(max_n=4), t=pairs, ta=positions, cm=st.booleans(), aslist=st.booleans()), quick=500, thorough=20000)
def superposed_loads(c):
    """sum over loads of load_vs_time(t) [cos(om t + ph)] * integral(load_vs_depth * property)."""
    Z = lambda p: rescale(p, 0, 1)
    m = Z(c['m'])
    bs = [Z(l['b']) for l in c['loads']]
    if not ok(m) or not all(map(ok, bs)):
        return False
    xi, xj = limits(m, c['t'])
    tt = place(c['loads'][0]['a'], c['ta'], .2)
    mm = Pwl(m)
    def total(cos):
        out = np.zeros((len(xi), len(tt)))
        for l, b in zip(c['loads'], bs):
            ma, mb = Pwl(l['a']), Pwl(b)
            I = np.array([float(product_integral(mb, mm, u, v)) for u, v in zip(xi, xj)])
            T = np.array([float(ma.seg_val(v, c['cm'])) for v in tt])
            if cos and l['om'] is not None:
                T = T * np.cos(l['om'][0] * np.array(tt) + l['om'][1])
            out += I[:, None] * T[None, :]
        return out
    A = [pw.PolyLine(l['a']) for l in c['loads']]
    B = [pw.PolyLine(b) for b in bs]
    M = pw.PolyLine(m)
    om = [l['om'] and tuple(l['om']) for l in c['loads']]
    snap = snapshot(A, B, M, om)
    atol = sum(5 * 1e3 * ptol(b, m, 1.) for b in bs)
    kw = dict(achoose_max=c['cm'])
    aa, bb = (A, B) if c['aslist'] or len(A) > 1 else (A[0], B[0])
    close(pw.pxa_ya_multiply_integrate_x1b_x2b_y1b_y2b_multiply_x1c_x2c_y1c_y2c_between_super(aa, bb, M, tt, xi, xj, **kw), total(False), rtol=1e-9, atol=atol, what='superposed integral')
    close(pw.pxa_ya_cos_multiply_integrate_x1b_x2b_y1b_y2b_multiply_x1c_x2c_y1c_y2c_between_super(A, B, M, tt, xi, xj, omega_phase=om, **kw), total(True), rtol=1e-9, atol=atol, what='superposed cosine integral')
    close(pw.pxa_ya_cos_multiply_integrate_x1b_x2b_y1b_y2b_multiply_x1c_x2c_y1c_y2c_between_super(A, B, M, tt, xi, xj, **kw), total(False), rtol=1e-9, atol=atol, what='superposed integral, omega_phase=None')
    if len(A) == 1:
        close(pw.pxa_ya_multiply_integrate_x1b_x2b_y1b_y2b_multiply_x1c_x2c_y1c_y2c_between(A[0], B[0], M, tt, xi, xj, **kw), total(False), rtol=1e-9, atol=atol, what='single integral')
        if om[0] is not None:
            close(pw.pxa_ya_cos_multiply_integrate_x1b_x2b_y1b_y2b_multiply_x1c_x2c_y1c_y2c_between(A[0], om[0][0], om[0][1], B[0], M, tt, xi, xj, **kw), total(True), rtol=1e-9, atol=atol, what='single cosine integral')
    same_snapshot(snap, A, B, M, om)
    return len(A) > 1 or interesting(m, xi, xj)


@CHECK.test(rec(a=points(max_n=5), b=points(max_n=5), ta=positions, t=pairs, cm=st.booleans()), quick=400, thorough=20000)
def value_times_average(c):
    ma, mb = Pwl(c['a']), Pwl(c['b'])
    xi, xj = limits(c['b'], c['t'])
    tt = place(c['a'], c['ta'], .2)
    want = [[float(ma.seg_val(v, c['cm']) * mb.integral(u, w) / (Fr(w) - Fr(u))) for v in tt] for u, w in zip(xi, xj)]
    A, B = pw.PolyLine(c['a']), pw.PolyLine(c['b'])
    at = 1e-9 / min(1, min(v - u for u, v in zip(xi, xj)))
    close(pw.pxa_ya_multipy_avg_x1b_x2b_y1b_y2b_between(A, B, tt, xi, xj, achoose_max=c['cm']), want, rtol=1e-9, atol=10 * at, what='value times average')
    close(pw.xa_ya_multipy_avg_x1b_x2b_y1b_y2b_between(A.x, A.y, B.x1, B.x2, B.y1, B.y2, tt, xi, xj, achoose_max=c['cm']), want, rtol=1e-9, atol=10 * at, what='value times average')
    return interesting(c['b'], xi, xj)
