"""C04: Tang & Onitsuka (2000) against a coupled soil-drain spectral-element model."""
from harness import *
import layered as Ly
import smear as S
from importlib import import_module
import geotecha.consolidation.tangandonitsuka2000 as T
C02 = import_module('c02')

CHECK = Check('C04', quick_scale=2, rule='well resistance changes the lowest decay rate by more than 1 % or a smear zone is present, and pressures between 2 % and 98 % of the load occur',
              assumptions=['surcharge starts from zero', 'drain drained at the pervious boundaries; zero flow in the drain at an impervious one'])

pos = logu(0.1, 10)
CASE = rec(kv=pos, kh=pos, ks=logu(0.05, 5), kw=st.one_of(logu(1, 1e5), logu(0.1, 1e3)), mv=pos, gamw=st.sampled_from([10., 9.81]), rw=logu(0.02, 0.2), smear=st.one_of(st.just(1.), logu(1.05, 6)), grow=logu(1.2, 30), H=logu(0.3, 20),
           drn=st.integers(0, 1), load=C02.load(), tf=st.lists(st.one_of(grid(0, 4, 32), logu(0.02, 20)), min_size=1, max_size=3), tpf=maybe(st.lists(st.one_of(grid(0, 4, 32), logu(0.02, 20)), min_size=1, max_size=3)),
           zf=st.lists(num(0, 1), min_size=1, max_size=4), nterms=st.sampled_from([1, 3, 8, 12]), slow=logu(0.05, 20), vert=st.sampled_from([1., 1., 0.01, 0.]), form=st.sampled_from(['list', 'array', 'scalar']), default=st.booleans(), at=maybe(st.integers(0, 7)))


def F_integral(n, s, kap):
    """equal strain average of the head loss over the annulus (constant smear)"""
    return float(S.constant(n, s, kap).mu() if s > 1 else S.Profile([(1., n, S.ones)]).mu())


@CHECK.test(CASE, quick=600, thorough=15000)
def solution(c):
    rw, H, drn = c['rw'], c['H'], c['drn']
    C02.at_break(c)
    s, n = c['smear'], c['smear'] * c['grow']
    rs, re = rw * s, rw * n
    kh, ks, gamw = c['kh'], c['ks'], c['gamw']
    F = F_integral(re / rw, rs / rw, kh / ks)
    kv = c['kv'] * c['vert']
    # bring the time scale to order one
    nodes = np.linspace(0, H, 4)
    P = Ly.Problem(nodes, lambda e, x: 1., lambda e, x: 1., p=26)
    a, b = 1, (P.ndof - 1 if drn == 0 else P.ndof)
    K, M = P.K[a:b, a:b], P.M[a:b, a:b]
    q = 2 * kh / gamw / re**2 / F                       # exchange per volume per pressure
    area = re**2 / rw**2 - 1
    uw = np.linalg.solve(c['kw'] / gamw * K + area * q * M, area * q * M)     # drain pressures from soil pressures
    A = kv / gamw * K + q * M @ (np.eye(len(M)) - uw)
    A = (A + A.T) / 2
    nm = c['nterms'] if drn == 1 else 2 * c['nterms'] - 1
    from scipy.linalg import eigh
    lam, v = eigh(A, M, subset_by_index=[0, nm - 1])
    if lam[0] <= 0:
        return False
    kvlike = kv / gamw * K + q * M
    mv = c['mv']
    mv = mv * lam[0] / mv / (0.3 * c['slow'])           # lowest rate becomes 0.3*slow
    lam = lam / mv
    phi = np.zeros((P.ndof, nm))
    phi[a:b] = v
    A0 = phi.T @ P.I
    x, y = c['load']
    sc = max(abs(w) for w in y)
    if sc == 0:
        return False
    z = np.array(c['zf']) * H
    t = np.array(c['tf'])
    tp = t if c['tpf'] is None else np.array(c['tpf'])
    form = {'list': list, 'array': np.asarray, 'scalar': lambda v: float(v[0])}[c['form']]
    if c['form'] == 'scalar':
        z, t, tp = z[:1], t[:1], tp[:1]
        if c['tpf'] is None:
            tp = t
    kw = dict(z=form(z), t=form(t), kv=kv, kh=kh, ks=ks, kw=c['kw'], mv=mv, gamw=gamw, rw=rw, rs=rs, re=re, H=H, drn=drn, nterms=c['nterms'])
    if c['tpf'] is not None:
        kw['tpor'] = form(tp)
    if c['default']:
        x, y = [0., 0., 100.], [0., 1., 1.]
        sc = 1.
    else:
        kw['surcharge_vs_time'] = (x, y)
    snap = snapshot(kw)
    por, avp, sett = T.tangandonitsuka2000(**kw)
    same_snapshot(snap, kw)
    por, avp, sett = np.asarray(por), np.asarray(avp), np.asarray(sett)
    V = P.value(phi, z)
    wp = np.array([V @ (A0 * Ly.response(x, y, lam, tt)) for tt in tp]).T
    wa = np.array([A0 @ (A0 * Ly.response(x, y, lam, tt)) / H for tt in t])
    ws = np.array([mv * H * Ly.load_at(x, y, tt) for tt in t]) - mv * H * wa
    tol = 1e-6
    close(por, wp, tol, tol * sc, 'por')
    close(avp, wa, tol, tol * sc, 'avp')
    close(sett, ws, tol, tol * sc * mv * H, 'settlement')
    f = np.abs(wp) / sc
    from scipy.linalg import eigh as _e
    ideal = _e(kvlike, M, subset_by_index=[0, 0], eigvals_only=True)[0] / mv
    return bool(((f > .02) & (f < .98)).any()) and (s > 1 or abs(ideal / lam[0] - 1) > 0.01)


@CHECK.test(rec(z=st.lists(st.integers(0, 7), min_size=1, max_size=4), t=st.lists(st.integers(0, 5), min_size=1, max_size=3), H=st.sampled_from([5.5, 7., 7.25]), drn=st.integers(0, 1)), quick=60, thorough=500)
def whole_numbers(c):
    """integer depths and times mean the same as floats"""
    z = [min(v, int(c['H'])) for v in c['z']]
    f = lambda z, t: T.tangandonitsuka2000(z, t, 0.5, 1., 0.3, 1000., 0.2, 10., 0.05, 0.1, 0.6, c['H'], c['drn'], ((0, 1, 100.), (0, 10., 10.)))
    for a, b in zip(f(np.array(z), np.array(c['t'])), f(np.array(z, float), np.array(c['t'], float))):
        close(a, b, 1e-12, 1e-14, 'result for integers')
    return c['drn'] == 0
