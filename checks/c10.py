"""C10: consolidation solutions give the same answer in every consistent set of units (metamorphic)."""
from harness import *
from importlib import import_module
import inspect
C01, C02, C03, C04, C05, C06, C07, C08, C09 = [import_module('c0%d' % i) for i in range(1, 10)]
from geotecha.consolidation.terzahi import terzaghi_1d, terzaghi_1d_flowrate
from geotecha.consolidation.tangandonitsuka2000 import tangandonitsuka2000
from geotecha.consolidation.zhuandyin2012 import zhuandyin2012
from geotecha.consolidation.dengetal2013and2014 import dengetal2013, dengetal2014
from geotecha.consolidation.luetal2010 import luetal2010
from geotecha.consolidation.shanetal2012 import shanetal2012
from geotecha.consolidation.cosenzaandkorosak2014 import cosenzaandkorosak2014
from geotecha.consolidation.xieandleo2004 import XieAndLeo2004

CHECK = Check('C10', rule='units of at least two of length, time and pressure are changed and the results are not all zero',
              assumptions=['the same preconditions as C01-C09', 'unit factors between 1e-9 and 1e9'])

U = rec(L=st.sampled_from([1., 1e-3, 1e3, 0.3048, 0.01, 100.]), T=st.sampled_from([1., 86400., 3.15576e7, 1 / 3.15576e7, 1e-3, 1e9, 1e-9, 60.]),
        P=st.sampled_from([1., 1e3, 1e-3, 1e6, 1e-6, 47.88]))

# dimension of each argument: exponents of (length, time, pressure)
N, Ln, Tm, Pr = (0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1)
PERM, MV, GAMW, CV = (1, -1, 0), (0, 0, -1), (-1, 0, 1), (2, -1, 0)
DIM = dict(z=Ln, t=Tm, tpor=Tm, H=Ln, L=Ln, rw=Ln, re=Ln, rs=Ln, rc=Ln, kv=PERM, kh=PERM, ks=PERM, kw=PERM, kw0=PERM, kvc=PERM, khc=PERM, kv0=PERM, mv=MV, mv0=MV, mvs=MV, mvc=MV, mvl=MV,
           gamw=GAMW, ui=Pr, utop=Pr, ubot=Pr, qu=Pr, qp=Pr, Hw=Ln, Cvw=CV, Cva=CV, uwi=Pr, uai=Pr)


def factor(u, d):
    return u['L']**d[0] * u['T']**d[1] * u['P']**d[2]


def mul(v, f):
    if v is None:
        return None
    if isinstance(v, np.ndarray):
        return v * f
    if isinstance(v, (list, tuple)):
        return type(v)(mul(w, f) for w in v)
    return v * f


def convert(f, u, a, kw, special={}):
    b = inspect.signature(f).bind(*a, **kw)
    b.apply_defaults()
    out = {}
    for k, v in b.arguments.items():
        out[k] = special[k](v, u, b.arguments) if k in special and v is not None else mul(v, factor(u, DIM[k])) if k in DIM else v
    return out


def compare(f, u, dims, special={}, tol=2e-6, size=None):
    """calls of f through the returned function are checked against the same problem in units u"""
    seen = []

    def g(*a, **kw):
        with np.errstate(all='ignore'):
            args = inspect.signature(f).bind(*a, **kw)
            args.apply_defaults()
            args = args.arguments
            want = f(*a, **kw)
            got = f(**convert(f, u, a, kw, special))
        W, G = (want, got) if isinstance(want, tuple) else ((want,), (got,))
        require(len(W) == len(G) == len(dims), 'number of results of %s' % f.__name__)
        for w, r, d in zip(W, G, dims):
            w, r = np.asarray(w), np.asarray(r)
            require(w.shape == r.shape, '%s: shape of result' % f.__name__)
            ok = np.isfinite(w)
            fin = np.abs(w[ok]).max() if ok.any() else 0.
            if size and d is not Ln:
                fin = max(fin, 1. if d is N else 1e-6 * size(args))
            close(r[ok] / factor(u, d), w[ok], tol, tol * fin + 1e-300, '%s: result in units L=%g T=%g P=%g' % (f.__name__, u['L'], u['T'], u['P']), scale=fin)
            seen.append(bool(fin > 0))
        return want
    g.seen = seen
    return g


def changed(u):
    return sum(v != 1 for v in u.values()) > 1


def through(mod, attr, f, test, c, u, dims, special={}, tol=2e-6, size=None):
    """run the generated case of another check with its function wrapped"""
    g = compare(f, u, dims, special, tol, size)
    old = getattr(mod, attr)
    setattr(mod, attr, g)
    try:
        test(c)
    finally:
        setattr(mod, attr, old)
    return changed(u) and any(g.seen)


def ui(a):
    return abs(a['ui'])


def case(mod, test):
    return rec(c=[t for t in mod.CHECK.tests if t.name == test][0].strategy, u=U)


@CHECK.test(case(C01, 'pore_pressure'), quick=400, thorough=15000)
def terzaghi(k):
    return through(C01.T, 'terzaghi_1d', terzaghi_1d, C01.pore_pressure, k['c'], k['u'], (Pr, N), size=ui)


@CHECK.test(case(C01, 'flow_rate'), quick=300, thorough=10000)
def terzaghi_flow(k):
    # rate of volume change of a column of unit area
    return through(C01.T, 'terzaghi_1d_flowrate', terzaghi_1d_flowrate, C01.flow_rate, k['c'], k['u'], (PERM,), size=lambda a: abs(a['kv'] * a['ui'] / a['gamw'] / a['H']))


@CHECK.test(case(C04, 'solution'), quick=120, thorough=4000)
def tang(k):
    load = dict(surcharge_vs_time=lambda v, u, args: ([x * u['T'] for x in v[0]], [y * u['P'] for y in v[1]]) if not hasattr(v, 'x') else type(v)(v.x * u['T'], v.y * u['P']))
    return through(C04.T, 'tangandonitsuka2000', tangandonitsuka2000, C04.solution, k['c'], k['u'], (Pr, Pr, Ln), load, size=lambda a: np.abs(a['surcharge_vs_time'].y if hasattr(a['surcharge_vs_time'], 'y') else a['surcharge_vs_time'][1]).max())


@CHECK.test(case(C05, 'solution'), quick=150, thorough=5000)
def zhu(k):
    return through(C05.Z, 'zhuandyin2012', zhuandyin2012, C05.solution, k['c'], k['u'], (Pr, N, Ln), tol=1e-5, size=ui)


# A3: rate of decline of the drain permeability
DECLINE = dict(A3=lambda v, u, args: v / u['T'])


@CHECK.test(case(C07, 'deng2013'), quick=300, thorough=10000)
def deng13(k):
    return through(C07, 'dengetal2013', dengetal2013, C07.deng2013, k['c'], k['u'], (Pr,), DECLINE, size=ui)


@CHECK.test(case(C07, 'deng2014'), quick=200, thorough=8000)
def deng14(k):
    return through(C07, 'dengetal2014', dengetal2014, C07.deng2014, k['c'], k['u'], (Pr,), DECLINE, size=ui)


@CHECK.test(case(C07, 'lu2010'), quick=200, thorough=8000)
def lu(k):
    return through(C07, 'luetal2010', luetal2010, C07.lu2010, k['c'], k['u'], (Pr, Pr, Pr, Pr, Ln), size=lambda a: max(abs(a['utop']), abs(a['ubot'])))


def time_function(v, u, args, bottom=False):
    # the base of a layer drained at the top only is given a pressure gradient
    v = dict(v, q0=v['q0'] * u['P'] / (u['L'] if bottom and args['drn'] == 1 else 1.))
    for a in ('b', 'omega'):
        if a in v:
            v[a] /= u['T']
    return v


LOADS = dict((f, time_function) for f in ('f', 'f1', 'f2'))
LOADS.update((f, lambda v, u, args: time_function(v, u, args, True)) for f in ('f3', 'f4'))


@CHECK.test(case(C08, 'solution'), quick=300, thorough=10000)
def shan(k):
    return through(C08, 'shanetal2012', shanetal2012, C08.solution, k['c'], k['u'], (Pr, Pr), LOADS, size=lambda a: max([abs(a[f]['q0']) * (a['H'] if a['drn'] == 1 and f in ('f3', 'f4') else 1.) for f in ('f', 'f1', 'f2', 'f3', 'f4') if a[f]] + [abs(v) for v in a['uwi'] + a['uai']]))


@CHECK.test(case(C09, 'solution'), quick=80, thorough=2500)
def cosenza(k):
    def order(v):
        return list(v) if isinstance(v, (list, tuple, np.ndarray)) else [v]

    u = k['u']

    def wrap(z, t, theta, v, tpor=None, L=1, kv=1, mv=0.1, gamw=10, ui=1, nterms=100):
        return cosenzaandkorosak2014(z, t, theta, v, tpor=tpor, L=L, kv=kv, mv=mv, gamw=gamw, ui=ui, nterms=nterms)

    def g(z, t, theta, v, **kw):
        fs = [u['T']**(q - 1) for q in order(v)]
        sc = dict(theta=lambda th, uu, args: th * fs[0] if not isinstance(th, (list, tuple, np.ndarray)) else [a * b for a, b in zip(th, fs)])
        h = compare(wrap, u, (Pr, N), sc, tol=1e-5, size=ui)
        r = h(z, t, theta, v, **kw)
        seen.extend(h.seen)
        return r
    seen = []
    old = C09.K.cosenzaandkorosak2014
    C09.K.cosenzaandkorosak2014 = g
    try:
        C09.solution(k['c'])
    finally:
        C09.K.cosenzaandkorosak2014 = old
    return changed(u) and any(seen)


VOID = dict(u=Pr, settlement=Ln, effective_stress=Pr, total_stress=Pr, total_pore_pressure=Pr, e=N, vs=PERM, vw=PERM, xi=Ln, Us=N, Up=N)


@CHECK.test(rec(c=C06.CASE, u=U), quick=300, thorough=10000)
def xie(k):
    c, u = k['c'], k['u']
    o, qu, H, e00 = C06.build(c)
    kw = dict(qu=qu, qp=c['qp'], H=H, Hw=c['Hw'], kv0=c['kv0'], mvl=c['mvl'], e00=e00, Gs=c['Gs'], gamw=c['gamw'], drn=c['drn'], nterms=c['nterms'] or 100)
    w = XieAndLeo2004(**convert(XieAndLeo2004, u, (), kw))
    a, t = np.array(c['Z']) * H, np.array(c['T']) * H * H * c['mvl'] * c['gamw'] / c['kv0']
    A, T = a * u['L'], t * u['T']
    sfx = '_PTIB' if c['drn'] == 1 else '_PTPB'
    same = lambda got, want, d, what: close(np.asarray(got) / factor(u, d), want, 2e-6, 1e-12, what + ' in other units', scale=np.abs(np.asarray(want)).max())
    same(w.Tv(T), o.Tv(t), N, 'Tv')
    same(w.e0(A), o.e0(a), N, 'e0')
    same(w.efinal(A), o.efinal(a), N, 'efinal')
    same(w.settlement_final(), o.settlement_final(), Ln, 'final settlement')
    same(w.initial_effective_stress(A), o.initial_effective_stress(a), Pr, 'initial effective stress')
    for n, d in sorted(VOID.items()):
        f, g = getattr(o, n + sfx), getattr(w, n + sfx)
        args = (t,) if n in ('Us', 'Up') else (a, t)
        same(g(*((T,) if n in ('Us', 'Up') else (A, T))), f(*args), d, n + sfx)
    same(getattr(w, 't_from_Us' + sfx)([.3, .9]), getattr(o, 't_from_Us' + sfx)([.3, .9]), Tm, 't_from_Us')
    return changed(u)


def load_in(c, u):
    return dict(c, load=[[v * u['T'] for v in c['load'][0]], [v * u['P'] for v in c['load'][1]]], tf=[v * u['T'] for v in c['tf']], tpf=[v * u['T'] for v in c['tpf']])


def same_program(a, b, u, scale, full):
    for n, d in (('por', Pr), ('avp', Pr), ('set', Ln)):
        w = np.asarray(getattr(a, n))
        # settlement is a difference from the final settlement `full`
        s = 2e-5 * scale if d is Pr else 2e-5 * np.abs(w).max() + 1e-7 * full
        close(np.asarray(getattr(b, n)) / factor(u, d), w, 2e-5, s, '%s in units L=%g T=%g P=%g' % (n, u['L'], u['T'], u['P']), scale=np.abs(w).max())


@CHECK.test(rec(c=C02.CASE, u=U), quick=150, thorough=5000)
def schiffman(k):
    u = k['u']
    b, c = C02.build(k['c'])
    if b is None:
        return False
    h, kv, mv = b
    if not C02.resolvable(h, kv, mv, c):
        return False
    runs = []
    for uu in (dict(L=1., T=1., P=1.), u):
        # kv is permeability / unit weight of water
        K = factor(uu, PERM) / factor(uu, GAMW)
        d = load_in(c, uu)
        for s in ('top', 'bot'):
            if d[s][0] == 3:
                d[s] = [3, d[s][1] * uu['L'], d[s][2] * K]
        a = C02.SS(C02.text(h * uu['L'], kv * K, mv / uu['P'], d, np.array(c['zf']) * np.sum(h * uu['L']), d['tf'], d['tpf']))
        a.make_all()
        runs.append(a)
    sc = max(abs(v) for v in c['load'][1])
    same_program(runs[0], runs[1], u, sc, sc * np.sum(h * mv))
    return changed(u) and sc > 0


@CHECK.test(rec(c=C03.CASE, u=U), quick=100, thorough=4000)
def nogami(k):
    c, u = dict(k['c']), k['u']
    b = C03.build(c)
    if b is None or not C03.resolvable(*b, c):
        return False
    h, kv, kh, mv, r = b
    runs = []
    for uu in (dict(L=1., T=1., P=1.), u):
        K = factor(uu, PERM) / factor(uu, GAMW)
        a = C03.NL(C03.text(h * uu['L'], kv * K, None if kh is None else kh * K, mv / uu['P'], r and (r[0] * uu['L'], r[1] * uu['L']), load_in(c, uu), np.array(c['zf']) * np.sum(h * uu['L']),
                            ''.join('%s_roots_%s = %r\n' % (a, b, v * f) for a, v, f in (('vertical', 1e-7, uu['T']**-0.5),) for b in ('x0', 'dx'))))
        a.make_all()
        runs.append(a)
    sc = max(abs(v) for v in c['load'][1])
    same_program(runs[0], runs[1], u, sc, sc * np.sum(h * mv))
    return changed(u) and sc > 0
