"""C06: XieAndLeo2004 large strain consolidation against an image solution and its own governing relations."""
from harness import *
from importlib import import_module
C01 = import_module('c01')
from geotecha.consolidation.xieandleo2004 import XieAndLeo2004
import geotecha.consolidation.xieandleo2004 as X

CHECK = Check('C06', quick_scale=2, rule='mvl*qu > 0.05 (large strain matters) and the transformed variable is between 0.02 and 0.98 somewhere',
              assumptions=['void ratios stay positive', 'differences up to the omitted series terms are allowed', 'velocities are positive downwards'])

XG, WG = np.polynomial.legendre.leggauss(40)


def f_of(Z, Tv, drn):
    """transformed variable: 1 initially, 0 at drained boundaries, linear diffusion"""
    Z = np.asarray(Z, float)
    return C01.ref_u(Z, Tv) if drn == 1 else C01.ref_u(2 * Z, 4 * Tv)


def grad(Z, Tv, drn):
    Z = np.asarray(Z, float)
    return C01.ref_flux(Z, Tv) if drn == 1 else 2 * C01.ref_flux(2 * Z, 4 * Tv)


def integral(Z, Tv, drn):
    """of f from Z to 1, split at the boundary layers"""
    d = math.sqrt(Tv)
    br = sorted({min(max(b, Z), 1.) for b in [Z, 1.] + [k * d for k in (0.5, 1, 2, 4, 8)] + [1 - k * d for k in (0.5, 1, 2, 4, 8)]})
    return sum((b - a) / 2 * np.sum(WG * f_of((a + b) / 2 + (b - a) / 2 * XG, Tv, drn)) for a, b in zip(br[:-1], br[1:]) if b > a)


CASE = rec(mq=logu(0.01, 1.6), mvl=logu(1e-4, 0.05), qp=st.one_of(logu(0.1, 100), st.just(0.)), H=logu(0.2, 30), Hw=num(0, 5), kv0=logu(1e-10, 1e-2), sw=num(0, 1), ef=num(0.1, 3), Gs=num(1.5, 3), gamw=st.sampled_from([10., 9.81]), drn=st.integers(0, 1),
           nterms=st.sampled_from([None, 20, 100, 300]), Z=st.lists(num(0, 1), min_size=1, max_size=4), T=st.lists(logu(5e-4, 3), min_size=1, max_size=3))


def build(c):
    gamw, Gs, mvl = c['gamw'], c['Gs'], c['mvl']
    qu = c['mq'] / mvl
    # self weight must leave a positive void ratio after loading at the base
    H = min(c['H'], 3. / (mvl * gamw * (Gs - 1)))
    drop = mvl * gamw * (Gs - 1) * H
    e00 = (1 + c['ef']) * math.exp(c['mq']) - 1 + drop
    kw = dict(qu=qu, qp=c['qp'], H=H, Hw=c['Hw'], kv0=c['kv0'], mvl=mvl, e00=e00, Gs=Gs, gamw=gamw, drn=c['drn'])
    if c['nterms']:
        kw['nterms'] = c['nterms']
    return XieAndLeo2004(**kw), qu, H, e00


@CHECK.test(CASE, quick=700, thorough=15000)
def everything(c):
    o, qu, H, e00 = build(c)
    drn, mvl, gamw, Gs, N = c['drn'], c['mvl'], c['gamw'], c['Gs'], c['nterms'] or 100
    sfx = '_PTIB' if drn == 1 else '_PTPB'
    m = lambda n: getattr(o, n + sfx)
    Z, Tv = np.array(c['Z']), np.array(c['T'])
    a, t = Z * H, Tv * H * H * mvl * gamw / c['kv0']
    close(o.Tv(t), Tv, 1e-12, 0, 'Tv')
    e0 = e00 - mvl * gamw * (Gs - 1) * a
    shrink = math.exp(-mvl * qu)
    close(o.e0(a), e0, 1e-12, 1e-14, 'e0')
    close(o.efinal(a), (1 + e0) * shrink - 1, 1e-11, 1e-12, 'efinal')
    close(o.settlement_final(), H * (1 - shrink), 1e-11, 0, 'final settlement')
    # initial effective stress: qp plus the weight of the solids, d sigma/da = (Gs-1) gamw/(1+e0)
    w = np.array([x / 2 * np.sum(WG * (Gs - 1) * gamw / (1 + e00 - mvl * gamw * (Gs - 1) * (x / 2 + x / 2 * XG))) for x in a])
    sig0 = c['qp'] + w
    close(o.initial_effective_stress(a), sig0, 1e-9, 1e-9, 'initial effective stress')
    s1, s2 = snapshot(a, t)
    nt = False
    res = {n: np.asarray(m(n)(a, t)) for n in ('u', 'settlement', 'effective_stress', 'total_stress', 'total_pore_pressure', 'e', 'vs', 'vw', 'xi')}
    Us = np.asarray(m('Us')(t))
    same_snapshot([s1, s2], a, t)
    for n, v in res.items():
        require(v.shape == (len(a), len(t)), 'shape of %s' % n)
    for j, tv in enumerate(Tv):
        tf, tq, td = C01.tails(N, tv if drn == 1 else 4 * tv)
        f, g = f_of(Z, tv, drn), grad(Z, tv, drn)
        tol = 1e-9 + tf
        amp = math.exp(mvl * qu) - 1
        u = np.log1p(amp * f) / mvl
        close(res['u'][:, j], u, 1e-9, (1e-9 + tol) * amp / mvl, 'excess pore pressure')
        e = (1 + e0) * np.exp(-mvl * (qu - u)) - 1
        dS = 2e-9 + 2 * td
        S = np.array([H * (1 - shrink) * (1 - z - integral(z, tv, drn)) for z in Z])
        close(res['e'][:, j], e, 1e-9, (1 + e00) * tol, 'void ratio')
        close(res['settlement'][:, j], S, 0, H * (1 - shrink) * dS, 'settlement of depth a')
        close(res['xi'][:, j], a + S, 1e-12, H * (1 - shrink) * dS, 'moved coordinate')
        p = u + gamw * (c['Hw'] + a + S)
        tp = (1e-9 + tol) * amp / mvl + gamw * H * (1 - shrink) * dS
        close(res['total_pore_pressure'][:, j], p, 1e-9, tp, 'total pore pressure')
        close(res['effective_stress'][:, j], sig0 + qu - u, 1e-9, tp + 1e-9, 'effective stress')
        close(res['total_stress'][:, j], sig0 + qu - u + p, 1e-9, tp + 1e-9, 'total stress')
        close(Us[j], S_top(tv, drn), 0, dS, 'degree of settlement')
        # velocities
        cv0 = c['kv0'] / mvl / gamw
        C = cv0 / H * (1 - shrink)
        gb = grad(np.array([1.]), tv, drn)[0]
        vs = C * (g - gb)
        flux = -C * g          # e/(1+e) (vw - vs) = -kv/gamw du/dxi
        vw = vs + (1 + e) / e * flux
        dv = C * (1e-9 + 4 * tq) + 1e-9 * np.abs(flux).max()
        close(res['vs'][:, j], vs, 1e-7, dv, 'velocity of solids')
        close(res['vw'][:, j], vw, 1e-7, dv * 2 * (1 + 1 / e.min()) + tol * np.abs(flux).max() * 3 * (1 + 1 / e.min())**2 * (1 + e00), 'velocity of fluid')
        nt |= bool(((f > .02) & (f < .98)).any())
    return nt and mvl * qu > 0.05


def S_top(tv, drn):
    return 1 - integral(0., tv, drn)


@CHECK.test(rec(c=CASE, U=st.lists(st.one_of(num(0.03, 0.97), logu(1e-5, 0.1).map(lambda v: 1 - v)), min_size=1, max_size=4)), quick=150, thorough=2000)
def degrees(cc):
    """degree of pressure dissipation is the mean of u; time for a degree of settlement gives that degree back"""
    c = cc['c']
    c['nterms'] = None
    c['T'] = [max(v, 2e-3) for v in c['T']]
    o, qu, H, e00 = build(c)
    drn, mvl = c['drn'], c['mvl']
    sfx = '_PTIB' if drn == 1 else '_PTPB'
    Tv = np.array(c['T'])
    t = Tv / o.dTv
    Up = np.asarray(getattr(o, 'Up' + sfx)(t))
    amp = math.exp(mvl * qu) - 1
    for j, tv in enumerate(Tv):
        d = math.sqrt(tv)
        br = sorted({min(max(b, 0.), 1.) for b in [0., 1., .5] + [k * d for k in (0.5, 1, 2, 4, 8)] + [1 - k * d for k in (0.5, 1, 2, 4, 8)]})
        mean = sum((b - a) / 2 * np.sum(WG * np.log1p(amp * f_of((a + b) / 2 + (b - a) / 2 * XG, tv, drn))) for a, b in zip(br[:-1], br[1:]) if b > a)
        close(Up[j], 1 - mean / (mvl * qu), 0, 1e-6, 'Up')
    U = np.array(cc['U'])
    tt = getattr(o, 't_from_Us' + sfx)(U)
    close(getattr(o, 'Us' + sfx)(tt), U, 0, 5e-4, 'Us at the time found for Us')
    close(1 - getattr(o, 'Us' + sfx)(tt), 1 - U, 2e-2, 0, 'what is left at the time found for Us')
    for u_, t_ in zip(U, tt):
        close(S_top(t_ * o.dTv, drn), u_, 0, 5e-4, 'true degree at the time found for Us')
    return mvl * qu > 0.05


@CHECK.test(rec(c=CASE, given=st.booleans()), quick=12, thorough=150)
def figures(cc):
    """the overview plot draws the computed quantities"""
    import matplotlib.pyplot as plt
    c = cc['c']
    c['nterms'] = 60
    o, qu, H, e00 = build(c)
    sfx = '_PTIB' if c['drn'] == 1 else '_PTPB'
    a, t = np.linspace(0, H, 7), np.array(sorted(c['T'])) / o.dTv
    fig = o.plot_all(a, t) if cc['given'] else o.plot_all()
    try:
        if cc['given']:
            xi = getattr(o, 'xi' + sfx)(a, t)
            want = {n: getattr(o, n + sfx)(a, t) for n in ('u', 'total_pore_pressure', 'effective_stress', 'total_stress', 'vs', 'vw', 'e')}
            axes = fig.axes
            for n, v in want.items():
                ok = any(len(ax.get_lines()) == len(t) and all(len(l.get_xdata()) == len(v) and np.allclose(l.get_xdata(), v[:, i], rtol=1e-12, atol=0) and np.allclose(l.get_ydata(), xi[:, i]) for i, l in enumerate(ax.get_lines())) for ax in axes)
                require(ok, '%s not drawn' % n)
    finally:
        plt.close('all')
    return True
