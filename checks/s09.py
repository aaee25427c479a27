"""S09: the code written by the integral generators computes the integrals it is generated for."""
from harness import *
import gencode
import s01, s02
from pwl import place

CHECK = Check('S09', rule='a property varies with depth, or an output time lies inside or after a sloping or stepped part of the load history', setup=gencode.setup,
              assumptions=s01.CHECK.assumptions + s02.CHECK.assumptions + ['the generated functions are run with the names of the integrals module in scope, as the generators document (paste into that module)'])


def fn(name):
    f = gencode.PY[name]
    require(callable(f), '%s: %s' % (name, f))
    require(not isinstance(gencode.EXT, str), str(gencode.EXT))
    return f


def forms(name, args, want, tol, scale):
    f = fn(name)
    snap = snapshot(*args)
    for impl in ('scalar', 'vectorized', 'fortran'):
        if impl == 'fortran':
            with gencode.installed():
                got = np.asarray(f(*args, implementation=impl))
            require(hasattr(gencode.EXT, name.lower()), 'no generated Fortran routine ' + name)
        else:
            got = np.asarray(f(*args, implementation=impl))
        require(np.all(np.abs(np.imag(got)) <= tol * scale + 1e-12), 'generated %s (%s): imaginary result for real input' % (name, impl))
        close(np.real(got), want, tol, 0, 'generated %s (%s)' % (name, impl), scale=scale)
    same_snapshot(snap, *args)


@CHECK.test(rec(c=s01.layered, which=st.integers(0, 6)), quick=900, thorough=40000)
def depth_integrals(c):
    m, z, cols, P = s01.build(c['c'])
    (at, ab), (bt, bb), (ct, cb) = cols
    zt, zb = P.zt, P.zb
    S, C = np.sin(np.outer(P.z, m)), np.cos(np.outer(P.z, m))
    A, B, D = P.val(0), P.val(1), P.val(2)
    sc = [max(1e-3, np.abs(np.concatenate(v)).max()) for v in cols]
    loss = 1 / (zb - zt).min()
    m2 = m**2
    sl = (bb - bt) / (zb - zt)
    two = (m, at, ab, bt, bb, zt, zb)
    name, args, want, scale = [
        lambda: ('dim1sin_af_linear', (m, at, ab, zt, zb), (S * (P.w * A)[:, None]).T @ S, sc[0] * loss),
        lambda: ('dim1sin_abf_linear', two, (S * (P.w * A * B)[:, None]).T @ S, sc[0] * sc[1] * loss**2),
        lambda: ('dim1sin_D_aDf_linear', (m, at, ab, zt, zb), -(C * m * (P.w * A)[:, None]).T @ (C * m), sc[0] * np.outer(m, m) * loss),
        lambda: ('dim1sin_ab_linear', two, S.T @ (P.w * A * B), sc[0] * sc[1] * loss**2),
        lambda: ('dim1sin_abc_linear', (m, at, ab, bt, bb, ct, cb, zt, zb), S.T @ (P.w * A * B * D), sc[0] * sc[1] * sc[2] * loss**3),
        lambda: ('dim1sin_D_aDb_linear', two, np.sin(m * zb[-1]) * ab[-1] * sl[-1] - np.sin(m * zt[0]) * at[0] * sl[0] - (C * m).T @ (P.w * A * P.slope(1)), sc[0] * sc[1] * m * loss**2),
        lambda: ('dim1sin_DD_abDDf_linear', two, (S * m2 * (P.w * A * B)[:, None]).T @ (S * m2), sc[0] * sc[1] * np.outer(m2, m2) * loss**2)][c['which']]()
    label(name)
    forms(name, args, want, 1e-10, scale)
    return s01.varies(cols)


@CHECK.test(rec(p=s02.load, t=s02.times, eigs=st.lists(logu(0.02, 60), min_size=1, max_size=4), dT=st.sampled_from([1.0, 1.0, 0.25, 2.5]), kind=st.sampled_from(sorted(s02.KINDS)), om=logu(0.05, 20), ph=num(-3, 3, 12, 1000)),
            quick=900, thorough=40000)
def time_integrals(c):
    p, k = c['p'], c['kind']
    x, y = s02.history(p)
    tv = np.array(sorted(set(max(0., v) for v in place(p, c['t'], beyond=0.5))))
    eigs, dT, om, ph = np.array(c['eigs']), c['dT'], c['om'], c['ph']
    trig = k in ('cos', 'sin', 'Dcos')
    want = np.array([[s02.oracle(k, p, om, ph, dT * e, t) for e in eigs] for t in tv])
    args = (x, y) + ((om, ph) if trig else ()) + (eigs, tv, dT)
    scale = 0.1 * (np.abs(y).max() + 0.1) * max(1, tv.max() - x[0]) * (om if k == 'Dcos' else 1)
    name = {'lin': 'Eload_linear', 'Dlin': 'EDload_linear', 'cos': 'Eload_coslinear', 'sin': 'Eload_sinlinear', 'Dcos': 'EDload_coslinear'}[k]
    label(name)
    forms(name, args, want, 1e-7, scale)
    return any(q0[0] <= t and q0[1] != q1[1] for q0, q1 in zip(p[:-1], p[1:]) for t in tv)


@CHECK.test(rec(c=s01.layered, z=st.lists(st.tuples(st.integers(0, 1000), st.integers(0, 1000)), min_size=1, max_size=6), node=st.booleans()), quick=500, thorough=20000)
def between_depths(c):
    m, z, cols, P = s01.build(c['c'])
    zz = []
    for i, (a, b) in enumerate(c['z']):
        a, b = sorted((a / 1000., b / 1000.))
        if c['node'] and i % 2 == 0:
            a = max(v for v in z if v <= a)
        if c['node'] and i % 3 == 0:
            b = min(v for v in z if v >= b)
        if b - a > 1e-3:
            zz.append((a, b))
    if not zz:
        return False
    (at, ab), (bt, bb) = cols[:2]
    one, two = np.zeros((len(zz), len(m))), np.zeros(len(zz))
    for r, (a, b) in enumerate(zz):
        for i, (t, e) in enumerate(zip(P.zt, P.zb)):
            lo, hi = max(a, t), min(b, e)
            if hi <= lo:
                continue
            g = np.linspace(lo, hi, int(m.max() * (hi - lo) / 3) + 2)
            for p, q in zip(g[:-1], g[1:]):
                x = (p + q) / 2 + (q - p) / 2 * s01.XG
                w = (q - p) / 2 * s01.WG
                A, B = [u[i] + (v[i] - u[i]) * (x - t) / (e - t) for u, v in cols[:2]]
                one[r] += np.sin(np.outer(x, m)).T @ (w * A)
                two[r] += w @ (A * B)
    scale = np.abs(np.concatenate(cols[0])).max() + 1e-3
    close(fn('dim1sin_a_linear_between')(m, at, ab, P.zt, P.zb, np.array(zz)), one, 1e-10, 0, 'generated dim1sin_a_linear_between', scale=100 * scale)
    s2 = scale * (np.abs(np.concatenate(cols[1])).max() + 1e-3)
    a, b = [np.array(v) for v in zip(*zz)]
    close(fn('dim1_ab_linear_between')(P.zt, P.zb, at, ab, P.zt, P.zb, bt, bb, a, b), two, 1e-9, 0, 'generated dim1_ab_linear_between', scale=1e4 * s2)
    return s01.varies(cols[:2])
