"""C08: Shan et al (2012) coupled air and water consolidation against decoupled diffusion modes."""
from harness import *
from geotecha.consolidation.shanetal2012 import shanetal2012

CHECK = Check('C08', quick_scale=3, rule='both phases are coupled (Cw*Ca > 0.001) or a time-dependent load or boundary acts, and some pressure differs from the initial and final ones',
              assumptions=['0 <= Ca*Cw < 1 and Cvw, Cva < 0 (dissipative soils)', "'exp' loads are q0 (1 - exp(-b t)) as derived in the module (the docstring says q0 exp(-b t))",
                           'with drn=1 the base functions f3, f4 are pressure gradients at the base', 'differences up to the omitted series terms are allowed'])

LOAD = st.one_of(st.none(), rec(type=st.just('exp'), q0=num(-50, 100), w=logu(0.05, 50)), rec(type=st.just('sin'), q0=num(-50, 100), w=logu(0.05, 50)))
CASE = rec(H=logu(0.5, 50), cw=logu(1e-12, 1e-2), r=logu(0.01, 100), couple=st.one_of(st.just(0.), num(0.01, 0.9)), ratio=logu(0.05, 20), sgn=st.sampled_from([-1, 1]), drn=st.integers(0, 1), Csw=num(-1, 1), Csa=num(-1, 1),
           uw=st.tuples(num(-50, 50), num(-50, 50)), ua=st.tuples(num(-50, 50), num(-50, 50)), init=st.booleans(), nterms=st.sampled_from([None, 20, 200]), f=LOAD, f1=LOAD, f2=LOAD, f3=LOAD, f4=LOAD,
           z=st.lists(num(0, 1), min_size=1, max_size=4), T=st.lists(logu(2e-4, 3), min_size=1, max_size=4), form=st.sampled_from(['array', 'list', 'scalar']))


def conv(p, t, r):
    """int_0^t q'(x) exp(r (t-x)) dx for q = q0 (1 - exp(-w t)) or q0 sin(w t)"""
    if p['type'] == 'exp':
        s, c = -p['w'], p['q0'] * p['w']
    else:
        s, c = 1j * p['w'], p['q0'] * p['w']
    d = s - r
    small = np.abs(d) * t < 1e-6
    d = np.where(small, 1., d)
    return np.real(np.where(small, c * t * np.exp(s * t), c * (np.exp(s * t) - np.exp(r * t)) / d))


def q(p, t):
    return p['q0'] * (1 - math.exp(-p['w'] * t) if p['type'] == 'exp' else math.sin(p['w'] * t))


@CHECK.test(CASE, quick=1500, thorough=30000)
def solution(c):
    H, N = c['H'], c['nterms'] or 100
    Cw = c['sgn'] * math.sqrt(c['couple'] * c['ratio'])
    Ca = c['sgn'] * math.sqrt(c['couple'] / c['ratio'])
    Cvw, Cva = -c['cw'], -c['cw'] * c['r']
    drn = c['drn']
    C = np.array([[1, Cw], [Ca, 1.]])
    IC = np.linalg.inv(C)
    # u_t = -C^-1 diag(Cvw, Cva) u'' + ... ; decoupled by the eigenvectors of the 2x2 matrix
    n = IC @ np.diag([Cvw, Cva])
    tr, det = n[0, 0] + n[1, 1], n[0, 0] * n[1, 1] - n[0, 1] * n[1, 0]
    dis = math.sqrt(max((n[0, 0] - n[1, 1])**2 + 4 * n[0, 1] * n[1, 0], 0.))
    r1 = (tr - dis) / 2
    lam = np.array([r1, det / r1])
    if dis > 1e-9 * abs(tr):
        P1 = (n - lam[1] * np.eye(2)) / (lam[0] - lam[1])      # spectral projectors
        P = [P1, np.eye(2) - P1]
    else:
        P = [np.eye(2), np.zeros((2, 2))]
    M = (np.arange(3000) + .5) * math.pi if drn == 1 else np.arange(1, 3001) * math.pi
    t0 = H**2 / abs(lam[0])
    t = np.array(c['T']) * t0
    z = np.array(c['z']) * H
    Z = z / H
    loads, kw = {}, {}
    for k in ('f', 'f1', 'f2', 'f3', 'f4'):
        p = c[k]
        if p is not None:
            w = p['w'] / t0
            kw[k] = {'type': p['type'], 'q0': p['q0'], 'b' if p['type'] == 'exp' else 'omega': w}
            loads[k] = dict(p, w=w)
    uw, ua = (c['uw'], c['ua']) if c['init'] else ((0, 0), (0, 0))
    args = [H, Cw, Cvw, Ca, Cva, drn, c['Csw'], c['Csa'], uw, ua]
    if c['nterms']:
        args.append(N)
    snap = snapshot(z, t, kw)
    if c['form'] == 'array':
        got = shanetal2012(z, t, *args, **kw)
    elif c['form'] == 'list':
        got = shanetal2012(list(z), list(t), *args, **kw)
    else:
        z, t, Z = z[:1], t[:1], Z[:1]
        got = shanetal2012(float(z[0]), float(t[0]), *args, **kw)
        snap[0], snap[1] = z, t
    same_snapshot(snap, z, t, kw)
    S = np.sin(np.multiply.outer(Z, M))
    one, top, bot = 2 * (1 - np.cos(M)) / M, 2 * (M - np.sin(M)) / M**2, 2 * (np.sin(M) - M * np.cos(M)) / M**2
    scale = max([abs(v) for v in uw + ua] + [abs(p['q0']) * (H if drn and k in ('f3', 'f4') else 1) * (1 + max(abs(c['Csw']), abs(c['Csa'])) * (k == 'f')) for k, p in loads.items()] + [1e-30]) * np.abs(IC).max() * max(np.abs(P[0]).max(), np.abs(P[1]).max())
    moved = False
    for j, tj in enumerate(t):
        amp = np.zeros((2, len(M)))
        lift = np.zeros((2, len(z)))
        dec = [np.exp(M**2 / H**2 * l * tj) for l in lam]
        x0 = np.array([w[0] * one + (w[1] - w[0]) * bot for w in (uw, ua)], dtype=float)
        for k in (0, 1):
            amp += P[k] @ x0 * dec[k]
        for name, p in loads.items():
            if name == 'f':
                g, shape, lin, ph = np.array([c['Csw'], c['Csa']]), one, None, None
            else:
                ph = 0 if name in ('f1', 'f3') else 1
                g = -C[:, ph]
                if name in ('f1', 'f2'):
                    shape, lin = (one, 1 + 0 * Z) if drn else (top, 1 - Z)
                else:
                    shape, lin = (bot * H, z) if drn else (bot, Z)
                lift[ph] += q(p, tj) * lin
            for k in (0, 1):
                amp += (P[k] @ (IC @ g))[:, None] * shape * conv(p, tj, M**2 / H**2 * lam[k])
        want = amp @ S.T + lift
        tol = np.abs(amp[:, N:]).sum(axis=1) * 1.5 + 1e-9 * scale
        for ph, name in enumerate(['water pressure', 'air pressure']):
            g_ = np.asarray(got[ph])
            require(g_.shape == (len(z), len(t)) and not np.iscomplexobj(g_), 'shape or type of %s' % name)
            close(g_[:, j], want[ph], 1e-8, tol[ph], name)
        moved |= bool((np.abs(amp) > 0.002 * scale).any() and max(dec[0][0], dec[1][0]) < .98)
    return moved and (c['couple'] > 0.001 or bool(loads))


@CHECK.test(rec(k=st.sampled_from(['f', 'f1', 'f2', 'f3', 'f4']), what=st.sampled_from(['type', 'q0', 'w']), kind=st.sampled_from(['exp', 'sin'])), quick=60, thorough=60)
def rejects(c):
    d = {'type': c['kind'], 'q0': 1., 'b' if c['kind'] == 'exp' else 'omega': 1.}
    if c['what'] == 'type':
        d['type'] = 'cos'
    else:
        del d['q0' if c['what'] == 'q0' else 'b' if c['kind'] == 'exp' else 'omega']
    raises(ValueError, lambda: shanetal2012(np.array([.5]), np.array([1.]), 1., -.5, -1., -.1, -2., **{c['k']: d}), 'bad %s' % c['k'])
    return True
