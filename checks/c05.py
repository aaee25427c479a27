"""C05: Zhu & Yin (2012) against spectral-element modes with power-law properties."""
from harness import *
import layered as Ly
import io, contextlib
import geotecha.consolidation.zhuandyin2012 as Z

CHECK = Check('C05', quick_scale=2, rule='properties vary by more than 5 % over the depth and pressures between 2 % and 98 % of the initial one occur',
              assumptions=['p - q is at least 0.05 from 2', 'first eigenvalue parameter above the documented search start (0.001) by five steps and neighbours further apart than the search step'])

CASE = rec(alpha=st.one_of(logu(0.1, 10), num(-0.8, -0.1, 7, 70)), p=st.one_of(grid(-4, 4, 16), num(-4, 4)), q=st.one_of(grid(-4, 4, 16), num(-4, 4)), drn=st.integers(0, 1), H=logu(0.2, 20), kv0=logu(1e-3, 10), mv0=logu(0.05, 5),
           gamw=st.sampled_from([10., 9.81]), ui=logu(0.1, 100), nterms=st.sampled_from([1, 2, 5, 10, 20]), zf=st.lists(num(0, 1), min_size=1, max_size=4), T=st.lists(logu(3e-3, 3), min_size=1, max_size=3),
           Tp=maybe(st.lists(logu(3e-3, 3), min_size=1, max_size=3)), form=st.sampled_from(['list', 'array', 'scalar']), plot=st.sampled_from([False] * 30 + [True]))


@CHECK.test(CASE, quick=700, thorough=15000)
def solution(c):
    al, p, q, H, drn, N = c['alpha'], c['p'], c['q'], c['H'], c['drn'], c['nterms']
    n = p - q
    if abs(n - 2) < 0.05:
        return False
    # nodes equally spaced in the variable in which the eigenfunctions oscillate
    b = (1 + al)**(1 - n / 2)
    nodes = ((1 + (b - 1) * np.arange(11) / 10.)**(1 / (1 - n / 2)) - 1) / al * H
    nodes[0], nodes[-1] = 0., H
    P = Ly.Problem(nodes, lambda e, x: (1 + al * x / H)**p, lambda e, x: (1 + al * x / H)**q, p=22)
    lam, phi = P.solve(True, drn == 0, N + 1)
    eta = np.sqrt(np.maximum(lam, 0)) * 2 * H / abs((2 - n) * al)
    gaps = np.diff(np.concatenate(([0.], eta)))
    if eta[0] < 0.007 or (gaps[1:] < 0.1 * max(eta[0], gaps.max())).any():
        label('unresolvable')
        return False
    lam, phi = lam[:N], phi[:, :N]
    cv0 = c['kv0'] / c['mv0'] / c['gamw']
    A = phi.T @ P.F
    t = np.array(c['T']) / lam[0] / cv0
    tp = None if c['Tp'] is None else np.array(c['Tp']) / lam[0] / cv0
    z = np.array(c['zf']) * H
    form = {'list': list, 'array': np.asarray, 'scalar': lambda v: float(v[0])}[c['form']]
    if c['form'] == 'scalar':
        z, t = z[:1], t[:1]
        tp = tp if tp is None else tp[:1]
    kw = dict(z=form(z), t=form(t), alpha=al, p=p, q=q, drn=drn, H=H, kv0=c['kv0'], mv0=c['mv0'], gamw=c['gamw'], ui=c['ui'], nterms=N)
    if tp is not None:
        kw['tpor'] = form(tp)
    if c['plot']:
        kw['plot_eigs'] = True
    snap = snapshot(kw)
    with contextlib.redirect_stdout(io.StringIO()):
        por, doc, sett = Z.zhuandyin2012(**kw)
    if c['plot']:
        import matplotlib.pyplot as plt
        plt.close('all')
    same_snapshot(snap, kw)
    V = P.value(phi, z)
    tot = np.sum(P.F)
    tp = t if tp is None else tp
    wp = np.array([V @ (A * np.exp(-lam * cv0 * tt)) for tt in tp]).T * c['ui']
    wd = np.array([1 - A @ (A * np.exp(-lam * cv0 * tt)) / tot for tt in t])
    close(np.asarray(por), wp, 1e-5, 2e-5 * c['ui'], 'por')
    close(np.asarray(doc), wd, 1e-5, 2e-5, 'doc')
    close(np.asarray(sett), wd * tot * c['mv0'] * c['ui'], 1e-5, 2e-5 * tot * c['mv0'] * c['ui'], 'settlement')
    f = wp / c['ui']
    k = (1 + al)**np.array([p, q])
    return bool(((f > .02) & (f < .98)).any()) and bool((abs(k - 1) > 0.05).any())
