"""Independent reference for the spectral consolidation programs, plus their input generator.

The documented governing equations are put in weak form on the documented basis
sin(m_i Z) (plus the documented boundary function u_b); every spatial integral
is done by composite Gauss quadrature and the resulting linear ODE system is
advanced exactly in time with matrix exponentials (piecewise-linear and cyclic
loads are themselves outputs of linear ODEs), so no closed-form integral and no
eigen-decomposition of the code under test is used.
"""
import math
import numpy as np
from scipy.linalg import expm, solve, eigvals
from harness import st, rec, num, logu, grid, maybe

XG, WG = np.polynomial.legendre.leggauss(12)
T_END = 8.0


# ---------------------------------------------------------------- generators
def profile(lo=0.3, hi=3.0, max_cuts=3):
    """property against normalised depth: {'z':[..], 't':[..], 'b':[..]} (top and bottom of each layer)"""
    def build(d):
        cuts = sorted(set(d[0]))
        z = [0.] + [c / 20. for c in cuts] + [1.]
        t, b = [], []
        for i in range(len(z) - 1):
            u, v, k = d[1][i]
            t.append(b[-1] if (k == 1 and b) else u)
            b.append(t[-1] if k in (0, 3) else v)
        return dict(z=z, t=t, b=b, four=d[2])
    v = num(lo, hi, 9, 900)
    return st.tuples(st.lists(st.integers(2, 18), max_size=max_cuts), st.lists(st.tuples(v, v, st.integers(0, 3)), min_size=max_cuts + 1, max_size=max_cuts + 1), st.booleans()).map(build)


def history(mag=5.0):
    """load history starting from zero, lasting beyond the last output time"""
    def build(d):
        t0, incs, ys = d
        out = [[t0, 0.]]
        t = t0
        for dt, y in zip(incs, ys):
            t = round(t + dt / 8., 9)
            out.append([t, y])
        if out[-1][0] < T_END + 1:
            out.append([T_END + 1., out[-1][1]])
        return out
    return st.tuples(st.sampled_from([0., 0., 0., 0.5, 1.25]), st.lists(st.one_of(st.just(0), st.integers(1, 24)), min_size=1, max_size=4),
                     st.lists(num(-mag, mag, 20, 1000), min_size=4, max_size=4)).map(build)


def timed():
    return rec(h=history(), op=maybe(st.tuples(logu(0.1, 6), num(-3, 3, 12, 600))))


def times():
    return st.lists(st.one_of(grid(0, T_END, 64), logu(0.01, T_END)), min_size=1, max_size=5).map(lambda v: sorted(set(v)))


depth = st.one_of(grid(0, 1, 20), grid(0, 1, 1000))


def zpairs():
    return st.lists(st.tuples(st.integers(0, 100), st.integers(1, 50)).map(lambda p: [min(p[0], 99) / 100., min(1., min(p[0], 99) / 100. + p[1] / 100.)]), min_size=1, max_size=3)


def common(**kw):
    d = dict(H=st.sampled_from([1.0, 2.5, 0.7]), drn=st.integers(0, 1), dT=st.sampled_from([1.0, 1.0, 0.4, 3.0]), neig=st.integers(2, 9),
             mvref=st.sampled_from([1.0, 0.2, 3.0]), tvals=times(), ppress_z=st.lists(depth, min_size=1, max_size=4), avg_ppress_z_pairs=zpairs(), settlement_z_pairs=zpairs(),
             implementation=st.sampled_from(['scalar', 'vectorized', 'fortran']), two_arg=st.booleans(), single=st.booleans(),
             surcharge=st.lists(rec(d=profile(-1, 2), v=timed()), max_size=2))
    d.update(kw)
    return rec(**d)


rate = st.one_of(logu(0.02, 2), logu(0.02, 2), st.sampled_from([1., 1., 0.5, 2.]))
rate0 = st.one_of(*[rate] * 9, st.just(0.))        # a flow can be switched off
tloads = lambda n=2: st.lists(timed(), max_size=n)
zin = grid(0.05, 0.95, 18)


def vr_inputs():
    return common(vert=maybe(rec(dTv=rate0, kv=profile())), rad=maybe(rec(dTh=rate0, kh=profile(), et=profile())),
                  vacuum=st.lists(rec(d=profile(-1, 2), v=timed()), max_size=1), top=tloads(), bot=tloads(),
                  fixed=st.lists(rec(z=zin, k=logu(0.1, 20), v=maybe(timed())), max_size=2), pumping=st.lists(rec(z=zin, v=timed()), max_size=2), mv=profile())


def vrw_inputs():
    return common(vert=maybe(rec(dTv=rate0, kv=profile())), rad=rec(dTh=rate, kh=profile(), et=profile()), well=rec(dTw=rate0, kw=profile()),
                  top=tloads(), bot=tloads(), fixed=st.lists(rec(z=zin, k=logu(0.1, 20), v=maybe(timed())), max_size=1),
                  pumping=st.lists(rec(z=zin, v=timed()), max_size=1), mv=profile())


def vrc_inputs():
    return common(n=num(1.5, 8, 13, 650), vert=rec(dTv=rate0, kv=profile()), rad=rec(dTh=rate, kh=profile(), et=profile()),
                  col=rec(dTvc=rate, kvc=profile(), dThc=rate, khc=profile()), top=tloads(), bot=tloads(), mv=profile())


def unsat_inputs():
    return common(dTw=rate, dTa=rate, kw=profile(), Da=profile(), m1kw=profile(-1.5, -0.2, 2), m2w=profile(-3, -1, 2), m1ka=profile(-3, -1.5, 2), m2a=profile(0.1, 0.8, 2),
                  n=profile(0.1, 0.8, 2), S=profile(0.2, 0.95, 2), ua_=st.sampled_from([101., 20., 3.]),
                  wtop=tloads(1), wbot=tloads(1), atop=tloads(1), abot=tloads(1))


# ------------------------------------------------------------------ text form
def pl_text(p, two=False):
    z, t, b = p['z'], p['t'], p['b']
    if p.get('four') and not two:
        return 'PolyLine(%r, %r, %r, %r)' % (z[:-1], z[1:], t, b)
    x, y = [z[0]], [t[0]]
    for i in range(len(t)):
        if i and t[i] != b[i - 1]:
            x.append(z[i])
            y.append(t[i])
        x.append(z[i + 1])
        y.append(b[i])
    return 'PolyLine(%r, %r)' % (x, y)


def tl_text(v):
    return 'PolyLine(%r, %r)' % ([p[0] for p in v['h']], [p[1] for p in v['h']])


def lines_common(c):
    L = ['H = %r' % c['H'], 'drn = %d' % c['drn'], 'dT = %r' % c['dT'], 'neig = %d' % c['neig'], 'mvref = %r' % c['mvref'],
         'tvals = np.array(%r)' % c['tvals'], 'ppress_z = %r' % c['ppress_z'], 'avg_ppress_z_pairs = %r' % c['avg_ppress_z_pairs'],
         'settlement_z_pairs = %r' % c['settlement_z_pairs'], 'implementation = %r' % c['implementation']]
    return L


def opl(vs):
    return '[%s]' % ', '.join(repr(tuple(v['op'])) if v is not None and v['op'] else 'None' for v in vs)


def add_list(L, name, items, single):
    """a single load may be given bare instead of as a list"""
    L.append('%s = %s' % (name, items[0] if single and len(items) == 1 else '[' + ', '.join(items) + ']'))


def load_lines(c, dist=(), bc=(), points=False):
    L = []
    s = c['single']
    for name in dist:
        q = c[name]
        if not q:
            continue
        add_list(L, name + '_vs_depth', [pl_text(e['d']) for e in q], s)
        add_list(L, name + '_vs_time', [tl_text(e['v']) for e in q], s)
        if any(e['v']['op'] for e in q):
            L.append('%s_omega_phase = %s' % (name, opl([e['v'] for e in q])))
    for name in bc:
        q = c[name]
        if not q:
            continue
        add_list(L, name + '_vs_time', [tl_text(e) for e in q], s)
        if any(e['op'] for e in q):
            L.append('%s_omega_phase = %s' % (name, opl(q)))
    if points:
        for name, key in (('fixed_ppress', 'fixed'), ('pumping', 'pumping')):
            q = c[key]
            if not q:
                continue
            if key == 'fixed':
                L.append('fixed_ppress = [%s]' % ', '.join('(%r, %r, %s)' % (e['z'], e['k'], tl_text(e['v']) if e['v'] else 'None') for e in q))
            else:
                L.append('pumping = [%s]' % ', '.join('(%r, %s)' % (e['z'], tl_text(e['v'])) for e in q))
            if any(e['v'] and e['v']['op'] for e in q):
                L.append('%s_omega_phase = %s' % (name, opl([e['v'] for e in q])))
    return L


def vr_text(c):
    L = lines_common(c) + ['mv = ' + pl_text(c['mv'])]
    if c['vert']:
        L += ['dTv = %r' % c['vert']['dTv'], 'kv = ' + pl_text(c['vert']['kv'])]
    if c['rad']:
        L += ['dTh = %r' % c['rad']['dTh'], 'kh = ' + pl_text(c['rad']['kh']), 'et = ' + pl_text(c['rad']['et'])]
    return '\n'.join(L + load_lines(c, ('surcharge', 'vacuum') if c['rad'] else ('surcharge',), ('top', 'bot'), True)) + '\n'


def vrw_text(c):
    L = lines_common(c) + ['mv = ' + pl_text(c['mv'])]
    if c['vert']:
        L += ['dTv = %r' % c['vert']['dTv'], 'kv = ' + pl_text(c['vert']['kv'])]
    L += ['dTh = %r' % c['rad']['dTh'], 'kh = ' + pl_text(c['rad']['kh']), 'et = ' + pl_text(c['rad']['et'])]
    L += ['dTw = %r' % c['well']['dTw'], 'kw = ' + pl_text(c['well']['kw'])]
    return '\n'.join(L + load_lines(c, ('surcharge',), ('top', 'bot'), True)) + '\n'


def vrc_text(c):
    L = lines_common(c) + ['mv = ' + pl_text(c['mv']), 'n = %r' % c['n']]
    L += ['dTv = %r' % c['vert']['dTv'], 'kv = ' + pl_text(c['vert']['kv'])]
    L += ['dTh = %r' % c['rad']['dTh'], 'kh = ' + pl_text(c['rad']['kh']), 'et = ' + pl_text(c['rad']['et'])]
    L += ['dTvc = %r' % c['col']['dTvc'], 'kvc = ' + pl_text(c['col']['kvc']), 'dThc = %r' % c['col']['dThc'], 'khc = ' + pl_text(c['col']['khc'])]
    return '\n'.join(L + load_lines(c, ('surcharge',), ('top', 'bot'))) + '\n'


def unsat_text(c):
    L = lines_common(c) + ['dTw = %r' % c['dTw'], 'dTa = %r' % c['dTa'], 'ua_ = %r' % c['ua_']]
    for k in 'kw Da m1kw m2w m1ka m2a n S'.split():
        L.append('%s = %s' % (k, pl_text(c[k])))
    return '\n'.join(L + load_lines(c, ('surcharge',), ('wtop', 'wbot', 'atop', 'abot'))) + '\n'


# ------------------------------------------------------------------ reference
def at(p, z):
    """profile value (mid-layer evaluation points are assumed)"""
    zz, t, b = np.array(p['z']), np.array(p['t']), np.array(p['b'])
    i = np.clip(np.searchsorted(zz, z, side='right') - 1, 0, len(t) - 1)
    return t[i] + (b - t)[i] * (z - zz[i]) / (zz[i + 1] - zz[i])


class Space(object):
    def __init__(self, c, profiles):
        self.neig, self.drn = c['neig'], c['drn']
        self.m = math.pi * (np.arange(self.neig) + (0.5 if self.drn else 1.0))
        self.cuts = sorted(set(z for p in profiles for z in p['z']))
        self.z, self.w = self.gauss(0., 1.)
        self.S = np.sin(np.outer(self.z, self.m))
        self.C = np.cos(np.outer(self.z, self.m)) * self.m

    def gauss(self, a, b):
        e = sorted(set([a, b] + [z for z in self.cuts if a < z < b]))
        pts, wts = [], []
        for p, q in zip(e[:-1], e[1:]):
            n = int(self.m[-1] * (q - p) / 3) + 1
            g = np.linspace(p, q, n + 1)
            h = (g[1] - g[0]) / 2
            pts.append(((g[:-1] + g[1:])[:, None] / 2 + h * XG).ravel())
            wts.append(np.tile(h * WG, n))
        return np.concatenate(pts), np.concatenate(wts)

    def mass(self, f):
        return (self.S * (self.w * f)[:, None]).T @ self.S

    def stiff(self, f):
        """-(phi, (f u_Z)_Z)"""
        return (self.C * (self.w * f)[:, None]).T @ self.C

    def vec(self, f):
        return self.S.T @ (self.w * f)

    def flux(self, p, slope):
        """(phi, (k ub_Z)_Z) for linear ub with slope d ub/dZ"""
        return np.sin(self.m) * p['b'][-1] * slope - slope * (self.C.T @ (self.w * at(p, self.z)))

    def point(self, z):
        return np.sin(self.m * z)

    def ub(self, which):
        """boundary functions: value at Z and slope"""
        if which == 'top':
            return ((lambda z: 1 - z), -1.) if self.drn == 0 else ((lambda z: np.ones_like(z)), 0.)
        return (lambda z: z), 1.


class TLoad(object):
    def __init__(self, v, factor=1.0):
        self.h, self.op, self.f = v['h'], v['op'], factor

    def value(self, t):
        """value just after t"""
        h = self.h
        if t < h[0][0]:
            y = 0.
        elif t >= h[-1][0]:
            y = h[-1][1]
        else:
            for (a, u), (b, v) in zip(h[:-1], h[1:]):
                if a <= t < b:
                    y = u + (v - u) * (t - a) / (b - a)
        return y * self.f * (math.cos(self.op[0] * t + self.op[1]) if self.op else 1.)

    def ab(self, t0, t1):
        """linear part on (t0, t1): value at t0+ and slope"""
        for (a, u), (b, v) in zip(self.h[:-1], self.h[1:]):
            if a <= t0 and t1 <= b and a < b:
                s = (v - u) / (b - a)
                return self.f * (u + s * (t0 - a)), self.f * s
        return 0., 0.


def evolve(M, K, loads, tvals):
    """M x' + K x = sum(G s + Hd s')  from rest; returns x(t+) per tval (columns)

    loads: list of (TLoad, G, Hd)"""
    n = len(M)
    A = -solve(M, K)
    F = []
    MH = [solve(M, Hd) for _, _, Hd in loads]
    for (l, G, Hd), mh in zip(loads, MH):
        F.append(solve(M, G) + A @ mh)
    ts = sorted(set([0.] + list(tvals) + [p[0] for l, _, _ in loads for p in l.h if p[0] <= max(tvals)]))
    y = np.zeros(n)
    out = {}

    def record(t):
        out[t] = y + sum((mh * l.value(t) for (l, _, _), mh in zip(loads, MH)), np.zeros(n))
    record(0.)
    for t0, t1 in zip(ts[:-1], ts[1:]):
        na = sum(4 if l.op else 2 for l, _, _ in loads)
        B = np.zeros((n + na, n + na))
        B[:n, :n] = A
        z = np.zeros(n + na)
        z[:n] = y
        k = n
        for (l, _, _), f in zip(loads, F):
            a, b = l.ab(t0, t1)
            if l.op:
                om, ph = l.op
                # states: cos, sin, tau*cos, tau*sin
                B[:n, k] += f * a
                B[:n, k + 2] += f * b
                B[k, k + 1] = -om
                B[k + 1, k] = om
                B[k + 2, k] = 1
                B[k + 2, k + 3] = -om
                B[k + 3, k + 1] = 1
                B[k + 3, k + 2] = om
                z[k], z[k + 1] = math.cos(om * t0 + ph), math.sin(om * t0 + ph)
                k += 4
            else:
                B[:n, k] += f * a
                B[:n, k + 1] += f * b
                B[k + 1, k] = 1
                z[k] = 1
                k += 2
        y = (expm(B * (t1 - t0)) @ z)[:n]
        record(t1)
    return np.array([out[t] for t in tvals]).T


class Result(object):
    pass


def bc_loads(c, sp, names, factor_bot):
    """[(TLoad, ub function, slope)] for each boundary load"""
    out = []
    for which in names:
        f, s = sp.ub('bot' if which.endswith('bot') else 'top')
        for v in c[which]:
            out.append((TLoad(v, factor_bot if which.endswith('bot') else 1.), f, s))
    return out


def field(sp, X, bcs, z, tvals):
    u = np.sin(np.outer(z, sp.m)) @ X
    for l, f, _ in bcs:
        u = u + np.outer(f(np.asarray(z, float)), [l.value(t) for t in tvals])
    return u


def averages(sp, X, bcs, pairs, tvals):
    out = []
    for a, b in pairs:
        z, w = sp.gauss(a, b)
        out.append(w @ field(sp, X, bcs, z, tvals) / (b - a))
    return np.array(out)


def integrals(sp, pairs, g):
    """integrals of g(z) (rows: z, columns: t) over pairs"""
    out = []
    for a, b in pairs:
        z, w = sp.gauss(a, b)
        out.append(w @ g(z))
    return np.array(out)


def surcharge_field(c, z, tvals):
    s = np.zeros((len(z), len(tvals)))
    for e in c['surcharge']:
        l = TLoad(e['v'])
        s += np.outer(at(e['d'], z), [l.value(t) for t in tvals])
    return s


def soil_terms(c, sp):
    """matrices and loads shared by the soil equation of VR, VRW"""
    mv = at(c['mv'], sp.z)
    M = sp.mass(mv)
    K = np.zeros_like(M)
    bcs = bc_loads(c, sp, ('top', 'bot'), c['H'] if c['drn'] == 1 else 1.)
    zero = np.zeros(sp.neig)
    loads = []
    for e in c['surcharge']:
        loads.append((TLoad(e['v']), zero, sp.vec(mv * at(e['d'], sp.z))))
    bl = [[l, np.zeros(sp.neig), -sp.vec(mv * f(sp.z))] for l, f, s in bcs]
    if c['vert']:
        K = K + c['vert']['dTv'] * sp.stiff(at(c['vert']['kv'], sp.z))
        for e, (l, f, s) in zip(bl, bcs):
            e[1] = e[1] + c['vert']['dTv'] * sp.flux(c['vert']['kv'], s)
    for e in c['fixed']:
        p = sp.point(e['z'])
        K = K + e['k'] * np.outer(p, p)
        for b, (l, f, s) in zip(bl, bcs):
            b[1] = b[1] - e['k'] * p * f(np.array(e['z']))
        if e['v']:
            loads.append((TLoad(e['v']), e['k'] * p, zero))
    for e in c['pumping']:
        loads.append((TLoad(e['v'], 1. / (c['mvref'] * c['H'])), sp.point(e['z']), zero))
    return M, K, loads, bl, bcs


def finish(c, sp, X, bcs, r):
    t = c['tvals']
    r.por = field(sp, X, bcs, c['ppress_z'], t)
    r.avp = averages(sp, X, bcs, c['avg_ppress_z_pairs'], t)
    r.set = c['H'] * c['mvref'] * integrals(sp, c['settlement_z_pairs'], lambda z: at(c['mv'], z)[:, None] * (surcharge_field(c, z, t) - field(sp, X, bcs, z, t)))
    return r


def profs(c, *keys):
    out = [c[k] for k in keys]
    for k in ('vert', 'rad', 'well', 'col'):
        if c.get(k):
            out += [v for v in c[k].values() if isinstance(v, dict)]
    out += [e['d'] for k in ('surcharge', 'vacuum') for e in c.get(k, [])]
    return out


def vr_ref(c):
    sp = Space(c, profs(c, 'mv'))
    M, K, loads, bl, bcs = soil_terms(c, sp)
    if c['rad']:
        he = c['rad']['dTh'] * at(c['rad']['kh'], sp.z) * at(c['rad']['et'], sp.z)
        K = K + sp.mass(he)
        for e, (l, f, s) in zip(bl, bcs):
            e[1] = e[1] - sp.vec(he * f(sp.z))
        for e in c['vacuum']:
            loads.append((TLoad(e['v']), sp.vec(he * at(e['d'], sp.z)), np.zeros(sp.neig)))
    X = evolve(M, K, loads + [tuple(e) for e in bl], c['tvals'])
    return finish(c, sp, X, bcs, Result())


def vrw_ref(c):
    """soil and drain are coupled; the drain equation has no storage"""
    sp = Space(c, profs(c, 'mv'))
    M, K, loads, bl, bcs = soil_terms(c, sp)
    he = c['rad']['dTh'] * at(c['rad']['kh'], sp.z) * at(c['rad']['et'], sp.z)
    R = sp.mass(he)
    W = R + c['well']['dTw'] * sp.stiff(at(c['well']['kw'], sp.z))
    # u_w = W^-1 (R u + d), d = dTw (phi, (kw ub_Z)_Z)
    d = [c['well']['dTw'] * sp.flux(c['well']['kw'], s) for l, f, s in bcs]
    K = K + R - R @ solve(W, R)
    for e, dd in zip(bl, d):
        e[1] = e[1] + R @ solve(W, dd)
    X = evolve(M, K, loads + [tuple(e) for e in bl], c['tvals'])
    r = finish(c, sp, X, bcs, Result())
    Xw = R @ X
    for (l, f, s), dd in zip(bcs, d):
        Xw = Xw + np.outer(dd, [l.value(t) for t in c['tvals']])
    r.porwell = field(sp, solve(W, Xw), bcs, c['ppress_z'], c['tvals'])
    return r


def vrc_ref(c):
    """soil, column and interface pore pressures us, uc, ub (all with the same boundary values)

    e = (1/mvref) d(strain)/dt;  e = Rh(us-b) + Ks us - ds,  e = Rc(uc-b) + Kc uc - dc,
    e = (1-a)(Ks us - ds) + a (Kc uc - dc),  u = (1-a) us + a uc,  M u' = M sigma' - e
    """
    sp = Space(c, profs(c, 'mv'))
    n = sp.neig
    a = 1. / c['n']**2
    mv = at(c['mv'], sp.z)
    M = sp.mass(mv)
    Ks = c['vert']['dTv'] * sp.stiff(at(c['vert']['kv'], sp.z))
    Rh = c['rad']['dTh'] * sp.mass(at(c['rad']['kh'], sp.z) * at(c['rad']['et'], sp.z))
    Kc = c['col']['dTvc'] * sp.stiff(at(c['col']['kvc'], sp.z))
    Rc = c['col']['dThc'] * sp.mass(at(c['col']['khc'], sp.z))
    I, Z = np.eye(n), np.zeros((n, n))
    # unknowns us, uc, b, e given u, ds, dc
    L = np.block([[(1 - a) * I, a * I, Z, Z],
                  [Rh + Ks, Z, -Rh, -I],
                  [Z, Rc + Kc, -Rc, -I],
                  [(1 - a) * Ks, a * Kc, Z, -I]])
    B = np.linalg.inv(L)
    rhs = lambda u, ds, dc: np.concatenate([u, ds, dc, (1 - a) * ds + a * dc])
    E = B[3 * n:]
    K = E[:, :n]
    bcs = bc_loads(c, sp, ('top', 'bot'), c['H'] if c['drn'] == 1 else 1.)
    loads = [(TLoad(e['v']), np.zeros(n), sp.vec(mv * at(e['d'], sp.z))) for e in c['surcharge']]
    dd = []
    for l, f, s in bcs:
        q = rhs(np.zeros(n), c['vert']['dTv'] * sp.flux(c['vert']['kv'], s), c['col']['dTvc'] * sp.flux(c['col']['kvc'], s))
        dd.append(q)
        loads.append((l, -E @ q, -sp.vec(mv * f(sp.z))))
    X = evolve(M, K, loads, c['tvals'])
    r = finish(c, sp, X, bcs, Result())
    Q = np.zeros((4 * n, len(c['tvals'])))
    Q[:n] = X
    for (l, f, s), q in zip(bcs, dd):
        Q += np.outer(q, [l.value(t) for t in c['tvals']])
    U = B @ Q
    r.pors = field(sp, U[:n], bcs, c['ppress_z'], c['tvals'])
    r.porc = field(sp, U[n:2 * n], bcs, c['ppress_z'], c['tvals'])
    r.avps = averages(sp, U[:n], bcs, c['avg_ppress_z_pairs'], c['tvals'])
    r.avpc = averages(sp, U[n:2 * n], bcs, c['avg_ppress_z_pairs'], c['tvals'])
    return r


def unsat_ref(c):
    sp = Space(c, [c[k] for k in 'kw Da m1kw m2w m1ka m2a n S'.split()] + [e['d'] for e in c['surcharge']])
    g = {k: at(c[k], sp.z) for k in 'm1kw m2w m1ka m2a n S'.split()}
    aa = g['m1ka'] - g['m2a'] - (1 - g['S']) * g['n'] / (c['ua_'] * c['mvref'])
    n = sp.neig
    M = np.block([[sp.mass(g['m2w']), sp.mass(g['m1kw'] - g['m2w'])], [sp.mass(g['m2a']), sp.mass(aa)]])
    Z = np.zeros((n, n))
    K = -np.block([[c['dTw'] * sp.stiff(at(c['kw'], sp.z)), Z], [Z, c['dTa'] * sp.stiff(at(c['Da'], sp.z))]])
    hb = c['H'] if c['drn'] == 1 else 1.
    wb, ab = bc_loads(c, sp, ('wtop', 'wbot'), hb), bc_loads(c, sp, ('atop', 'abot'), hb)
    loads = []
    zero = np.zeros(n)
    for e in c['surcharge']:
        d = at(e['d'], sp.z)
        loads.append((TLoad(e['v']), np.zeros(2 * n), np.concatenate([sp.vec(g['m1kw'] * d), sp.vec(g['m1ka'] * d)])))
    for l, f, s in wb:
        b = f(sp.z)
        loads.append((l, np.concatenate([-c['dTw'] * sp.flux(c['kw'], s), zero]), -np.concatenate([sp.vec(g['m2w'] * b), sp.vec(g['m2a'] * b)])))
    for l, f, s in ab:
        b = f(sp.z)
        loads.append((l, np.concatenate([zero, -c['dTa'] * sp.flux(c['Da'], s)]), -np.concatenate([sp.vec((g['m1kw'] - g['m2w']) * b), sp.vec(aa * b)])))
    ev = eigvals(solve(M, K))
    if np.abs(ev.imag).max() > 1e-9 * np.abs(ev).max() or ev.real.min() <= 0:
        return None
    X = evolve(M, K, loads, c['tvals'])
    t = c['tvals']
    r = Result()
    r.porw, r.pora = field(sp, X[:n], wb, c['ppress_z'], t), field(sp, X[n:], ab, c['ppress_z'], t)
    r.avpw, r.avpa = averages(sp, X[:n], wb, c['avg_ppress_z_pairs'], t), averages(sp, X[n:], ab, c['avg_ppress_z_pairs'], t)
    def strain(m1, m2):
        def f(z):
            ua, uw = field(sp, X[n:], ab, z, t), field(sp, X[:n], wb, z, t)
            return at(c[m1], z)[:, None] * (surcharge_field(c, z, t) - ua) + at(c[m2], z)[:, None] * (ua - uw)
        return c['H'] * c['mvref'] * integrals(sp, c['settlement_z_pairs'], f)
    r.setw, r.seta = strain('m1kw', 'm2w'), strain('m1ka', 'm2a')
    r.set = r.setw + r.seta
    return r


def load_size(c):
    s = 0.
    for k in ('surcharge', 'vacuum'):
        for e in c.get(k, []):
            s += max(abs(p[1]) for p in e['v']['h']) * max(map(abs, e['d']['t'] + e['d']['b']))
    for k in ('top', 'bot', 'wtop', 'wbot', 'atop', 'abot'):
        for e in c.get(k, []):
            s += max(abs(p[1]) for p in e['h']) * 2.5
    for k in ('fixed', 'pumping'):
        for e in c.get(k, []):
            if e['v']:
                s += max(abs(p[1]) for p in e['v']['h']) * (1 if k == 'fixed' else 5)
    return s


def drained(c):
    """some flow that dissipates is switched on (without, the decay rates are zero)"""
    v, r, w = c.get('vert'), c.get('rad'), c.get('well')
    if 'col' in c or 'dTw' in c:
        return True
    return bool(v and v['dTv']) or bool(w['dTw'] if w else r and r['dTh'])


def has_load(c):
    if not drained(c):
        return False
    return any(c.get(k) for k in ('surcharge', 'top', 'bot', 'pumping', 'wtop', 'wbot', 'atop', 'abot')) or (c.get('rad') and c.get('vacuum')) or any(e['v'] for e in c.get('fixed', []))
