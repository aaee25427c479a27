"""C02: SchiffmanAndStein1970 against spectral-element modes of the layered problem."""
from harness import *
import os, tempfile, shutil
import layered as Ly
from geotecha.consolidation.schiffmanandstein1970 import SchiffmanAndStein1970 as SS

CHECK = Check('C02', quick_scale=2, rule='at least two different layers or an impeded boundary, and pore pressures between 2 % and 98 % of the load somewhere',
              assumptions=['problems whose eigenvalues are far enough apart for the documented search (neighbouring roots several search steps apart)',
                           'not impervious at both ends (no consolidation)', 'surcharge starts from zero'])

prop = st.one_of(logu(0.2, 5), logu(0.02, 50), logu(0.2, 5), logu(1e-4, 1e2))
LAYER = st.tuples(logu(0.3, 3), prop, prop)


def load():
    def build(d):
        t0, incs, ys = d
        x, y = [t0], [0.]
        for dt, v in zip(incs, ys):
            x.append(round(x[-1] + dt / 8., 9))
            y.append(v)
        return [x + [x[-1] + 200.], y + [y[-1]]]
    return st.tuples(st.sampled_from([0., 0., 0.5, 1.25]), st.lists(st.one_of(st.just(0), st.integers(1, 16)), min_size=1, max_size=4), st.lists(num(-5, 20, 25, 2500), min_size=4, max_size=4)).map(build)


BC = st.one_of(st.sampled_from([[0], [0], [1]]), st.tuples(st.just(3), logu(0.05, 2), logu(0.02, 5)).map(list))
CASE = rec(layers=st.lists(LAYER, min_size=1, max_size=4), n=st.integers(1, 7), top=BC, bot=BC, load=load(), tf=st.lists(st.one_of(grid(0, 4, 32), logu(0.02, 20)), min_size=1, max_size=3),
           tpf=st.lists(st.one_of(grid(0, 4, 32), logu(0.02, 20)), min_size=1, max_size=3), zf=st.lists(num(0, 1), min_size=1, max_size=4), H=st.sampled_from([1., 1., 4., 20.]), slow=logu(0.05, 20), at=maybe(st.integers(0, 7)))


def at_break(c):
    """also look at the very times at which the load has a corner or step"""
    if c['at'] is not None:
        x = c['load'][0][:-1]
        for k in ('tf', 'tpf'):
            if c[k] is not None:
                c[k] = c[k] + [x[c['at'] % len(x)]]


def text(h, kv, mv, c, z, t, tpor, extra=''):
    """source for the program"""
    out = ['h = np.array(%r)' % (list(h),), 'kv = np.array(%r)' % (list(kv),), 'mv = np.array(%r)' % (list(mv),), 'n = %d' % c['n'], 'z = np.array(%r)' % (list(z),),
           't = np.array(%r)' % (list(t),), 'tpor = np.array(%r)' % (list(tpor),), 'surcharge_vs_time = PolyLine(%r, %r)' % tuple(c['load'])]
    for side, bc in (('top', c['top']), ('bot', c['bot'])):
        out.append('bc%s = %d' % (side, bc[0]))
        if bc[0] == 3:
            out += ['h%s = %r' % (side, bc[1]), 'k%s = %r' % (side, bc[2])]
    return '\n'.join(out) + '\n' + extra


def build(c):
    if c['top'][0] == 1 and c['bot'][0] == 1:
        return None, None
    h = np.array([l[0] for l in c['layers']])
    h *= c['H'] / h.sum()
    mv = np.array([l[2] for l in c['layers']])
    # typical time for the load = typical time for consolidation / slow
    kv = np.array([l[1] for l in c['layers']]) * c['H']**2 * 0.1 * c['slow']
    c = dict(c)
    at_break(c)
    for k in ('top', 'bot'):
        if c[k][0] == 3:
            c[k] = [3, c[k][1] * c['H'], c[k][2] * c['slow'] * 0.1 * c['H']**2]
    return (h, kv, mv), c


def modes(h, kv, mv, c, n, p=30):
    nodes = np.concatenate(([0.], np.cumsum(h)))
    P = Ly.Problem(nodes, lambda e, x: kv[e], lambda e, x: mv[e], p=p)
    rb = lambda b: b[2] / b[1] if b[0] == 3 else 0.
    lam, phi = P.solve(c['top'][0] == 0, c['bot'][0] == 0, n, rb(c['top']), rb(c['bot']))
    return P, lam, phi


def resolvable(h, kv, mv, c):
    P, lam, phi = modes(h, kv, mv, c, c['n'] + 1)
    b0 = np.sqrt(lam * mv[0] / kv[0])
    gaps = np.diff(np.concatenate(([0], b0)))
    # the search steps are 1 % of the distance travelled since the last root (at least half the last step)
    travel = gaps[0]
    for g in gaps[1:]:
        if g < 0.05 * travel:
            return False
        travel = max(travel / 2, g)
    return True


@CHECK.test(CASE, quick=700, thorough=15000)
def solution(c):
    b, c = build(c)
    if b is None:
        return False
    h, kv, mv = b
    if not resolvable(h, kv, mv, c):
        label('unresolvable')
        return False
    H = h.sum()
    z = np.array(c['zf']) * h.sum()
    a = SS(text(h, kv, mv, c, z, c['tf'], c['tpf']))
    a.make_all()
    P, lam, phi = modes(h, kv, mv, c, c['n'])
    A = phi.T @ P.F
    x, y = c['load']
    sc = max(abs(v) for v in y)
    if sc == 0:
        return False
    V = P.value(phi, z)
    por = np.array([V @ (A * Ly.response(x, y, lam, t)) for t in c['tpf']]).T
    avp = np.array([(phi.T @ P.I) @ (A * Ly.response(x, y, lam, t)) / H for t in c['tf']])
    sett = np.array([np.sum(mv * h) * Ly.load_at(x, y, t) - A @ (A * Ly.response(x, y, lam, t)) for t in c['tf']])
    tol = 2e-5
    require(np.shape(a.por) == (len(z), len(c['tpf'])), 'shape of por %s' % (np.shape(a.por),))
    close(a.por, por, tol, tol * sc, 'por')
    close(np.ravel(a.avp), avp, tol, tol * sc, 'avp')
    close(np.ravel(a.set), sett, tol, tol * sc * np.sum(mv * h), 'set')
    for nm in ('top', 'bot'):
        label('%s=%d' % (nm, c[nm][0]))
    f = np.abs(por) / sc
    return (len(h) > 1 or c['top'][0] == 3 or c['bot'][0] == 3) and bool(((f > .02) & (f < .98)).any())


@CHECK.test(rec(c=CASE, eigs=st.booleans()), quick=40, thorough=600)
def outputs(cc):
    """saved files and figures hold the computed values"""
    import outputs as O
    c = cc['c']
    b, c = build(c)
    if b is None or not resolvable(*b, c):
        return False
    h, kv, mv = b
    z = np.unique(np.array(c['zf'])) * h.sum()
    c['tf'], c['tpf'] = sorted(set(c['tf'])), sorted(set(c['tpf']))
    if cc['eigs'] and c['n'] < 2:
        c['n'] = 2
    a, figs = O.run(SS, text(h, kv, mv, c, z, c['tf'], c['tpf'], 'show_vert_eigs = %r' % cc['eigs']),
                    {'_data_por': lambda a: (c['tpf'], a.por.T), '_data_avp': lambda a: (c['tf'], a.avp.T), '_data_set': lambda a: (c['tf'], a.set.T)})
    O.has_lines(figs['fig_por'], [(a.por[:, i], z) for i in range(len(c['tpf']))], 'fig_por')
    O.has_lines(figs['fig_avp'], [(c['tf'], np.ravel(a.avp))], 'fig_avp')
    O.has_lines(figs['fig_set'], [(c['tf'], np.ravel(a.set))], 'fig_set')
    require(len(figs) == 3 + cc['eigs'], 'figures made: %s' % list(figs))
    return True


@CHECK.test(rec(c=CASE, i=st.integers(0, 3), f=st.sampled_from([0.5, 0.25, 0.9])), quick=200, thorough=4000)
def split_layer(cc):
    """a layer cut in two identical layers changes nothing"""
    b, c = build(cc['c'])
    if b is None or not resolvable(*b, c):
        return False
    h, kv, mv = b
    i = cc['i'] % len(h)
    h2 = np.concatenate((h[:i], [h[i] * cc['f'], h[i] * (1 - cc['f'])], h[i + 1:]))
    dup = lambda v: np.concatenate((v[:i + 1], v[i:]))
    z = np.array(c['zf']) * min(h.sum(), np.cumsum(h2)[-1])
    r = []
    for hh, k, m in ((h, kv, mv), (h2, dup(kv), dup(mv))):
        a = SS(text(hh, k, m, c, z, c['tf'], c['tpf']))
        a.make_all()
        r.append(a)
    sc = max(abs(v) for v in c['load'][1])
    close(r[1].por, r[0].por, 2e-5, 2e-5 * sc, 'por with a split layer')
    close(r[1].avp, r[0].avp, 2e-5, 2e-5 * sc, 'avp with a split layer')
    close(r[1].set, r[0].set, 2e-5, 2e-5 * sc * np.sum(mv * h), 'set with a split layer')
    return sc > 0
