"""C03: NogamiAndLi2003 against spectral-element modes in depth and radius."""
from harness import *
import layered as Ly
import outputs as O
from geotecha.consolidation.nogamiandli2003 import NogamiAndLi2003 as NL
from importlib import import_module
C02 = import_module('c02')

CHECK = Check('C03', quick_scale=2, rule='drains present or several layers, and pore pressures between 2 % and 98 % of the load somewhere',
              assumptions=['problems whose vertical eigenvalues are far enough apart for the documented search (neighbours further apart than the search step reaches)',
                           'matrix transfer through layers where pressure decays by less than exp(8)', 'not impervious at both ends unless there is a drain', 'surcharge starts from zero'])

prop = st.one_of(logu(0.2, 5), logu(0.05, 20))
CASE = rec(layers=st.lists(st.tuples(logu(0.3, 3), prop, prop, prop), min_size=1, max_size=4), nv=st.integers(1, 5), nh=st.integers(1, 4), top=st.sampled_from([0, 0, 1]), bot=st.sampled_from([0, 1]), drain=maybe(st.tuples(logu(0.02, 2), logu(1.5, 60))),
           rf=maybe(num(0, 1)), load=C02.load(), tf=st.lists(st.one_of(grid(0, 4, 32), logu(0.02, 20)), min_size=1, max_size=3), tpf=st.lists(st.one_of(grid(0, 4, 32), logu(0.02, 20)), min_size=1, max_size=3),
           zf=st.lists(num(0, 1), min_size=1, max_size=4), H=st.sampled_from([1., 1., 4., 20.]), slow=logu(0.05, 20), mix=st.one_of(logu(0.1, 10), logu(0.1, 10), logu(1e-4, 10)), at=maybe(st.integers(0, 7)), p=st.sampled_from([1.05, 1.01]), scale=st.sampled_from([1., 1e-3]))


def radial(r0, r1, n):
    """modes of annulus: u = 0 at r0, u' = 0 at r1, weight r"""
    q = max(2, int(math.ceil(math.log(r1 / r0) / 0.9)))
    nodes = r0 * (r1 / r0)**(np.arange(q + 1) / q)
    P = Ly.Problem(nodes, lambda e, x: x, lambda e, x: x, p=20)
    mu, u = P.solve(True, False, n)
    return P, mu, u, u.T @ P.F    # last: integral of r u


def build(c):
    C02.at_break(c)
    h = np.array([l[0] for l in c['layers']])
    h *= c['H'] / h.sum()
    mv = np.array([l[2] for l in c['layers']])
    kv = np.array([l[1] for l in c['layers']]) * c['H']**2 * 0.1 * c['slow']
    kh = r = None
    if c['drain']:
        r0, n = c['drain']
        r = r0, r0 * n
        mu = radial(r[0], r[1], 1)[1][0]
        kh = np.array([l[3] for l in c['layers']]) * 0.1 * c['slow'] * c['mix'] / mu
    elif c['top'] == 1 and c['bot'] == 1:
        return None
    return h, kv * c['scale'], kh if kh is None else kh * c['scale'], mv * c['scale'], r


def modes(h, kv, kh, mv, r, c, nv, p=30):
    nodes = np.concatenate(([0.], np.cumsum(h)))
    out = []
    nh = c['nh'] if r else 1
    rad = radial(r[0], r[1], nh) if r else None
    for i in range(nh):
        react = (lambda e, x: kh[e] * rad[1][i] * np.ones_like(x)) if r else None
        P = Ly.Problem(nodes, lambda e, x: kv[e], lambda e, x: mv[e], react, p=p)
        out.append((P,) + P.solve(c['top'] == 0, c['bot'] == 0, nv))
    return out, rad


def resolvable(h, kv, kh, mv, r, c):
    ms, rad = modes(h, kv, kh, mv, r, c, c['nv'] + 1)
    start = 0.
    for i, (P, lam, phi) in enumerate(ms):
        al = np.sqrt(lam)
        travel = al[0] - start
        for g in np.diff(al):
            if g < 5 * (c['p'] - 1) * travel or g < 1e-3 * al[0]:
                return False
            travel = max(travel, g)
        if i and al[0] - start < 1e-4 * start:
            return False
        start = al[0]
        if r:
            # evanescent decay
            b2 = (rad[1][i] * kh[None, :] - lam[:, None] * mv[None, :]) / kv[None, :]
            if (np.sqrt(np.maximum(b2, 0)) @ h).max() > 8:
                return False
    return True


def text(h, kv, kh, mv, r, c, z, extra=''):
    out = ['h = np.array(%r)' % (list(h),), 'kv = np.array(%r)' % (list(kv),), 'mv = np.array(%r)' % (list(mv),), 'nv = %d' % c['nv'], 'z = np.array(%r)' % (list(z),), 't = np.array(%r)' % (list(c['tf']),),
           'tpor = np.array(%r)' % (list(c['tpf']),), 'surcharge_vs_time = PolyLine(%r, %r)' % tuple(c['load']), 'bctop = %d' % c['top'], 'bcbot = %d' % c['bot'], 'vertical_roots_p = %r' % c['p']]
    if r:
        out += ['kh = np.array(%r)' % (list(kh),), 'r0, r1 = %r, %r' % r, 'nh = %d' % c['nh']]
        if c['rf'] is not None:
            out.append('rcalc = %r' % rcalc(c, r))
    return '\n'.join(out) + '\n' + extra


def rcalc(c, r):
    return min(r[1], r[0] + (r[1] - r[0]) * c['rf'])


@CHECK.test(CASE, quick=500, thorough=10000)
def solution(c):
    b = build(c)
    if b is None:
        return False
    if not resolvable(*b, c):
        label('unresolvable')
        return False
    h, kv, kh, mv, r = b
    H = h.sum()
    z = np.array(c['zf']) * h.sum()
    a = NL(text(h, kv, kh, mv, r, c, z))
    a.make_all()
    ms, rad = modes(h, kv, kh, mv, r, c, c['nv'])
    x, y = c['load']
    sc = max(abs(v) for v in y)
    if sc == 0:
        return False
    por, avp, diss = np.zeros((len(z), len(c['tpf']))), np.zeros(len(c['tf'])), np.zeros(len(c['tf']))
    for i, (P, lam, phi) in enumerate(ms):
        if r:
            Pr, mu, u, Iu = rad
            un = Iu[i] * (Pr.value(u[:, i:i + 1], [rcalc(c, r)])[0, 0] if c['rf'] is not None else Iu[i] * 2 / (r[1]**2 - r[0]**2))
        else:
            un = 1.
        A = phi.T @ P.F
        V = P.value(phi, z)
        for j, t in enumerate(c['tpf']):
            por[:, j] += un * (V @ (A * Ly.response(x, y, lam, t)))
        for j, t in enumerate(c['tf']):
            rr = A * Ly.response(x, y, lam, t)
            avp[j] += un * ((phi.T @ P.I) @ rr) / H
            diss[j] += un * (A @ rr)
    sett = np.array([np.sum(mv * h) * Ly.load_at(x, y, t) for t in c['tf']]) - diss
    tol = 5e-5
    require(np.shape(a.por) == por.shape, 'shape of por %s' % (np.shape(a.por),))
    require(np.shape(a.avp) == (1, len(c['tf'])) and np.shape(a.set) == (1, len(c['tf'])), 'shape of avp and set')
    close(a.por, por, tol, tol * sc, 'por')
    close(a.avp[0], avp, tol, tol * sc, 'avp')
    close(a.set[0], sett, tol, tol * sc * np.sum(mv * h), 'set')
    f = np.abs(por) / sc
    return (len(h) > 1 or r is not None) and bool(((f > .02) & (f < .98)).any())


@CHECK.test(rec(c=CASE, eigs=st.booleans()), quick=40, thorough=600)
def outputs(cc):
    """saved files and figures hold the computed values"""
    c = cc['c']
    b = build(c)
    if b is None or not resolvable(*b, c):
        return False
    z = np.unique(np.array(c['zf'])) * np.cumsum(b[0])[-1]
    c['tf'], c['tpf'] = sorted(set(c['tf'])), sorted(set(c['tpf']))
    if len(c['tf']) < 2:   # a single time makes the time axis degenerate
        c['tf'] = c['tf'] + [c['tf'][0] + 1.]
    a, figs = O.run(NL, text(*b, c, z, 'show_vert_eigs = %r' % cc['eigs']),
                    {'_data_por': lambda a: (c['tpf'], a.por.T), '_data_avp': lambda a: (c['tf'], a.avp.T), '_data_set': lambda a: (c['tf'], a.set.T)})
    O.has_lines(figs['fig_por'], [(a.por[:, i], z) for i in range(len(c['tpf']))], 'fig_por')
    O.has_lines(figs['fig_avp'], [(c['tf'], np.ravel(a.avp))], 'fig_avp')
    O.has_lines(figs['fig_set'], [(c['tf'], np.ravel(a.set))], 'fig_set')
    require(len(figs) == 3 + cc['eigs'], 'figures made: %s' % list(figs))
    return True
