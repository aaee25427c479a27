"""S10: the spectral programs reproduce the closed-form solutions shipped for the same problems."""
from harness import *
import fort, smear
from importlib import import_module
from geotecha.speccon.speccon1d_vr import Speccon1dVR
from geotecha.speccon.speccon1d_vrw import Speccon1dVRW
from geotecha.speccon.speccon1d_vrc import Speccon1dVRC
from geotecha.speccon.speccon1d_unsat import Speccon1dUnsat
from geotecha.consolidation.terzahi import terzaghi_1d
from geotecha.consolidation.tangandonitsuka2000 import tangandonitsuka2000
from geotecha.consolidation.luetal2010 import luetal2010
from geotecha.consolidation.zhuandyin2012 import zhuandyin2012
from geotecha.consolidation.shanetal2012 import shanetal2012
from geotecha.consolidation.schiffmanandstein1970 import SchiffmanAndStein1970
C02 = import_module('c02')

CHECK = Check('S10', rule='some compared pore pressure or degree of consolidation is between 2 % and 98 % of its initial value', setup=fort.speccon,
              assumptions=['homogeneous problems are expanded in the same modes by both programs and must agree to rounding; layered and graded ones agree up to the omitted modes',
                           'time factors above 0.02 where the two expansions differ'])

IMPL = st.sampled_from(['scalar', 'vectorized', 'fortran'])
TV = st.lists(st.one_of(logu(1e-3, 3), logu(0.02, 1.5)), min_size=1, max_size=4).map(lambda v: sorted(set(v)))
ZN = st.lists(num(0, 1), min_size=1, max_size=4)
GEN = dict(H=logu(0.5, 40), kv=logu(1e-4, 10), mv=logu(1e-4, 1), gamw=st.sampled_from([10., 9.81]), impl=IMPL, T=TV, Z=ZN, cut=st.sampled_from([0, 0, 1, 3]), dT=logu(0.02, 50), split=logu(0.1, 10))


def const(v, cut=0):
    """constant profile, perhaps described in pieces"""
    x = list(np.linspace(0, 1, cut + 2))
    return 'PolyLine(%r, %r)' % (x, [v] * len(x))


def prog(cls, **kw):
    """run a spectral program"""
    L = []
    for k, v in kw.items():
        L.append('%s = %s' % (k, v if isinstance(v, str) and k != 'implementation' else repr(v.tolist() if isinstance(v, np.ndarray) else v)))
    for i, l in enumerate(L):
        if l.startswith('tvals') or l.startswith('ppress_z ='):
            k, v = l.split(' = ')
            L[i] = '%s = np.array(%s)' % (k, v)
    a = cls('\n'.join(L) + '\n')
    a.make_all()
    return a


def middling(v, scale):
    f = np.abs(np.ravel(v)) / scale
    return bool(((f > .02) & (f < .98)).any())


def ref(c, H, kv, mv):
    """reference values and profile magnitudes sharing the coefficients"""
    s1, s2 = c['split'], c['split2']
    return dict(H=H, dTv=float(kv / s1 / (mv / s2) / c['gamw'] / H**2), mvref=float(mv / s2), kv=const(s1, c['cut']), mv=const(s2, c['cut2']), implementation=c['impl'])


GEN.update(split2=logu(0.1, 10), cut2=st.sampled_from([0, 0, 1, 2]), ui=logu(0.1, 200), drn=st.integers(0, 1), n=st.integers(1, 25))


def instant(u, t):
    return 'PolyLine([0, 0, %r], [0, %r, %r])' % (float(2 * np.max(t)), u, u)


ALL = dict(avg_ppress_z_pairs=[[0, 1]], settlement_z_pairs=[[0, 1]])


@CHECK.test(rec(**GEN), quick=250, thorough=8000)
def terzaghi(c):
    drn, N, H, u = c['drn'], c['n'], c['H'], c['ui']
    Z = np.array(c['Z'])
    cv = c['kv'] / c['mv'] / c['gamw']
    t = np.array(c['T']) * H**2 / cv
    # a layer drained at both ends behaves as two halves: only its odd modes carry load
    neig, d = (N, 1.) if drn == 1 else (2 * N - 1, 2.)
    zz = H * Z if drn == 1 else H * np.minimum(Z, 1 - Z)
    por, doc = terzaghi_1d(zz, t, H / d, c['kv'], c['mv'], c['gamw'], u, N)
    a = prog(Speccon1dVR, drn=drn, neig=neig, dT=float(c['dT'] * cv / H**2), surcharge_vs_depth=const(1., c['cut']), surcharge_vs_time=instant(u, t), tvals=t, ppress_z=Z, **ref(c, H, c['kv'], c['mv']), **ALL)
    label('drn=%d' % drn)
    close(a.por, por, 1e-9, 0, 'por of Speccon1dVR and terzaghi_1d', scale=u)
    close(np.ravel(a.avp), (1 - doc) * u, 1e-9, 0, 'avp of Speccon1dVR and 1 - degree of consolidation of terzaghi_1d', scale=u)
    close(np.ravel(a.set) / (c['mv'] * H * u), doc, 1e-9, 0, 'settlement of Speccon1dVR and degree of consolidation of terzaghi_1d', scale=1)
    return middling(por, u)


@CHECK.test(rec(layers=st.lists(st.tuples(logu(0.3, 3), logu(0.4, 2.5), logu(0.4, 2.5)), min_size=1, max_size=4), bc=st.sampled_from([[0, 0], [0, 1]]), load=C02.load(),
                t=st.lists(grid(0, 4, 32), min_size=1, max_size=3), slow=logu(0.1, 5), thick=st.sampled_from([1., 4., 20.]), **{k: v for k, v in GEN.items() if k in ('Z', 'impl', 'gamw', 'split', 'split2')}), quick=60, thorough=1500)
def layered(c):
    h = np.array([l[0] for l in c['layers']])
    h *= c['thick'] / h.sum()
    H = float(h.sum())
    mv = np.array([l[2] for l in c['layers']])
    kv = np.array([l[1] for l in c['layers']]) * H**2 * 0.1 * c['slow']      # already divided by gamw in that program
    cc = dict(top=[c['bc'][0]], bot=[c['bc'][1]], n=12, load=c['load'])
    if not C02.resolvable(h, kv, mv, cc):
        label('unresolvable')
        return False
    Z = np.array(c['Z'])
    x, y = c['load']
    sc = max(abs(v) for v in y)
    # where instant loads have just been applied both series are far from converged: look at later times
    lam = C02.modes(h, kv, mv, cc, 1)[1][0]
    t = np.array([v for v in c['t'] if all(not 0 <= v - xx < 0.03 / lam for xx in x)])
    if sc == 0 or len(t) == 0:
        return False
    a = SchiffmanAndStein1970(C02.text(h, kv, mv, cc, Z * H, t, t))
    a.make_all()
    s1, s2 = c['split'], c['split2']
    zb = np.concatenate(([0.], np.cumsum(h) / H))
    zb[-1] = 1.
    pl = lambda v: 'PolyLine(%r, %r, %r, %r)' % (zb[:-1].tolist(), zb[1:].tolist(), v.tolist(), v.tolist())
    b = prog(Speccon1dVR, H=H, drn=c['bc'][1], dT=1., neig=60, mvref=1 / s2, dTv=float(s2 / s1 / H**2), kv=pl(kv * s1), mv=pl(mv * s2), surcharge_vs_depth=const(1.), surcharge_vs_time='PolyLine(%r, %r)' % (x, y),
             tvals=t, ppress_z=Z, implementation=c['impl'], **ALL)
    label('%d layers' % len(h))
    close(b.por, a.por, 0, 0.03 * sc, 'por of Speccon1dVR and SchiffmanAndStein1970')
    close(np.ravel(b.avp), np.ravel(a.avp), 0, 0.01 * sc, 'avp of Speccon1dVR and SchiffmanAndStein1970')
    close(np.ravel(b.set), np.ravel(a.set), 0, 0.01 * sc * np.sum(mv * h), 'settlement of Speccon1dVR and SchiffmanAndStein1970')
    return middling(a.por, sc) and len(h) > 1


@CHECK.test(rec(pq=st.sampled_from([[0., 0.], [1., 0.], [0., 1.], [1., 1.]]), alpha=st.one_of(num(0.1, 4), num(-0.7, -0.05)), late=st.lists(logu(0.03, 1.5), min_size=1, max_size=3),
                **{k: v for k, v in GEN.items() if k not in ('cut', 'cut2', 'T', 'n', 'dT')}), quick=100, thorough=3000)
def graded(c):
    p, q = c['pq']
    drn, H, u, al = c['drn'], c['H'], c['ui'], c['alpha']
    cv = c['kv'] / c['mv'] / c['gamw']
    t = np.array(sorted(c['late'])) * H**2 / cv
    Z = np.array(c['Z'])
    por, doc, settle = zhuandyin2012(Z * H, t, al, p, q, drn=drn, H=H, kv0=c['kv'], mv0=c['mv'], gamw=c['gamw'], ui=u, nterms=20)
    s1, s2 = c['split'], c['split2']
    pl = lambda v, e: 'PolyLine([0, 1], [%r, %r])' % (float(v), float(v * (1 + al)**e))
    a = prog(Speccon1dVR, H=H, drn=drn, dT=float(cv / H**2), neig=25, mvref=float(c['mv'] / s2), dTv=float(c['kv'] / s1 / (c['mv'] / s2) / c['gamw'] / H**2), kv=pl(s1, p), mv=pl(s2, q), surcharge_vs_depth=const(1.),
             surcharge_vs_time=instant(u, t), tvals=t, ppress_z=Z, implementation=c['impl'], **ALL)
    label('p=%g q=%g drn=%d' % (p, q, drn))
    close(a.por, por, 0, 0.01 * u, 'por of Speccon1dVR and zhuandyin2012')
    full = c['mv'] * H * u * (1 + q * al / 2)
    close(np.ravel(a.set), settle, 0, 0.01 * full, 'settlement of Speccon1dVR and zhuandyin2012')
    close(np.ravel(a.set), doc * full, 0, 0.01 * full, 'settlement of Speccon1dVR and degree of consolidation of zhuandyin2012')
    return middling(por, u) and p + q > 0


RAMPS = C02.load()
DRAIN = dict(rw=logu(0.02, 0.2), nn=num(2, 40), s=st.one_of(st.just(1.), num(1, 2)), kap=num(1, 8), mix=logu(0.05, 50), G=logu(1e-3, 30))


@CHECK.test(rec(load=RAMPS, t=st.lists(grid(0, 4, 32), min_size=1, max_size=4), slow=logu(0.05, 5), huge=st.booleans(), **DRAIN, **{k: v for k, v in GEN.items() if k not in ('T', 'ui')}), quick=200, thorough=5000)
def drained(c):
    """vertical drains with well resistance, loaded in ramps and steps"""
    N, H, drn, n = c['n'], c['H'], c['drn'], c['nn']
    rw, re, rs = c['rw'], c['rw'] * n, min(c['rw'] * c['s'], 0.9 * c['rw'] * n)
    mv, gamw = c['mv'], c['gamw']
    H_ = H if drn == 1 else H / 2
    mu = smear.constant(n, rs / rw, c['kap']).mu()
    # cv such that the loading takes about as long as consolidation
    kv = c['slow'] * mv * gamw * H_**2
    kh = c['slow'] * c['mix'] * mv * gamw * re**2 * mu / 2
    kw = 1e9 * kh * (H / rw)**2 if c['huge'] else kh * (H_ / 2 / rw)**2 / c['G']
    x, y = c['load']
    t = np.array(sorted(set(c['t'])))
    sc = max(abs(v) for v in y)
    if sc == 0:
        return False
    Z = np.array(c['Z'])
    por, avp, settle = tangandonitsuka2000(Z * H, t, kv, kh, kh / c['kap'], kw, mv, gamw, rw, rs, re, H, drn, (x, y), nterms=N)
    r = ref(c, H, kv, mv)
    s3 = c['split']
    rad = dict(dTh=float(kh / s3 / r['mvref'] / gamw * 2 / mu / re**2), kh=const(s3, c['cut']), et=const(1., 1))
    neig = N if drn == 1 else 2 * N - 1
    both = dict(drn=drn, neig=neig, dT=float(c['dT'] * c['slow']), surcharge_vs_depth=const(1., c['cut']), surcharge_vs_time='PolyLine(%r, %r)' % (x, y), tvals=t, ppress_z=Z, **ALL)
    kwargs = dict(both, **r)
    kwargs.update(rad)
    well = dict(dTw=float(kw / s3 / r['mvref'] / gamw / H**2 / (n**2 - 1)), kw=const(s3, c['cut2']))
    for name, a in (('Speccon1dVRW', prog(Speccon1dVRW, **dict(kwargs, **well))),) + ((('Speccon1dVR', prog(Speccon1dVR, **kwargs)),) if c['huge'] else ()):
        tol = 1e-6
        close(a.por, por, 0, tol * sc, 'por of %s and tangandonitsuka2000' % name)
        close(np.ravel(a.avp), avp, 0, tol * sc, 'avp of %s and tangandonitsuka2000' % name)
        close(np.ravel(a.set), settle, 0, tol * sc * mv * H, 'settlement of %s and tangandonitsuka2000' % name)
    label('huge' if c['huge'] else 'resistance')
    return middling(por, sc)


@CHECK.test(rec(ub=num(-1, 1.5), mvc=logu(1e-3, 2), khc=logu(1e-3, 1e3), kvc=logu(1e-2, 1e4), **DRAIN, **{k: v for k, v in GEN.items() if k != 'drn'}), quick=200, thorough=5000)
def columns(c):
    """stone columns, loaded instantly with a pressure varying linearly with depth"""
    N, H, n = c['n'], c['H'], c['nn']
    rc, re, rs = c['rw'], c['rw'] * n, min(c['rw'] * c['s'], 0.9 * c['rw'] * n)
    gamw, mvs, mvc = c['gamw'], c['mv'], c['mv'] * c['mvc']
    mu = smear.constant(n, rs / rc, c['kap']).mu()
    kv = c['kv']
    kh = kv * c['mix'] * re**2 * mu / H**2
    khc, kvc = kh * c['khc'], kv * c['kvc']
    u, ub = c['ui'], c['ui'] * c['ub']
    mvref = mvs * n**2 / (n**2 - 1 + mvs / mvc)
    # typical rate of the slowest mode, to place the output times
    rate = (kv * 2.5 / H**2 + 2 / (mu * re**2 / kh + rc**2 / khc / 4)) / gamw / mvref
    t = np.array(c['T']) / rate
    Z = np.array(c['Z'])
    por, pors, porc, avp, settle = luetal2010(Z * H, t, rc, re, H, rs, kh / c['kap'], kv, kvc, kh, khc, mvs, mvc, gamw, u, ub, N)
    s1, s2 = c['split'], c['split2']
    mr = mvref / s2
    a = prog(Speccon1dVRC, H=H, drn=1, neig=N, dT=float(c['dT'] * rate), mvref=float(mr), mv=const(s2, c['cut2']), n=n, dTv=float(kv / s1 / mr / gamw / H**2), kv=const(s1, c['cut']),
             dTh=float(kh / s1 / mr / gamw * 2 / mu / re**2), kh=const(s1), et=const(1., 1), dThc=float(8 * khc / mr / gamw / rc**2), khc=const(1., c['cut']), dTvc=float(kvc / s2 / mr / gamw / H**2), kvc=const(s2, c['cut2']),
             surcharge_vs_depth='PolyLine([0, 1], [1., %r])' % c['ub'], surcharge_vs_time=instant(u, t), tvals=t, ppress_z=Z, implementation=c['impl'], **ALL)
    sc = max(u, abs(ub))
    for k, v in (('por', por), ('pors', pors), ('porc', porc)):
        close(getattr(a, k), v, 0, 1e-6 * max(sc, np.abs(v).max()), k + ' of Speccon1dVRC and luetal2010')
    close(np.ravel(a.avp), avp, 0, 1e-6 * sc, 'avp of Speccon1dVRC and luetal2010')
    close(np.ravel(a.set), np.ravel(settle), 0, 1e-6 * sc * H * mvref, 'settlement of Speccon1dVRC and luetal2010')
    return middling(por, sc)


LOADU = st.one_of(st.none(), st.none(), rec(q0=num(-50, 100), w=logu(0.05, 50)))


@CHECK.test(rec(H=logu(0.5, 40), gamw=st.sampled_from([10., 9.81]), impl=IMPL, T=TV, Z=ZN, dT=logu(0.02, 50), split=logu(0.1, 10), drn=st.integers(0, 1), N=st.integers(1, 25), mvref=logu(1e-5, 1e-2), kw=logu(1e-12, 1e-6), ra=logu(0.02, 50), ua_=st.sampled_from([101., 111., 1e4]),
                m1kw=num(-1.5, -0.2), m2w=num(-3, -1), m1ka=num(-3, -1.5), m2a=num(0.1, 0.8), por=num(0.1, 0.8), S=num(0.2, 0.95), q=st.tuples(num(-50, 100), num(-50, 100)), f=LOADU, wtop=LOADU, atop=LOADU, wbot=LOADU, abot=LOADU), quick=200, thorough=5000)
def unsaturated(c):
    """coupled air and water: undrained response to an instant load, then sinusoidal loads and boundary pressures"""
    H, N, drn, mr, s = c['H'], c['N'], c['drn'], c['mvref'], c['split']
    m1kw, m2w, m1ka, m2a = [c[k] * mr for k in ('m1kw', 'm2w', 'm1ka', 'm2a')]
    d = 1 - m2a / m1ka - c['por'] * (1 - c['S']) / (c['ua_'] * m1ka)
    Cw, Ca, Csw, Csa = (1 - m2w / m1kw) / (m2w / m1kw), m2a / m1ka / d, m1kw / m2w, 1 / d
    Cvw = c['kw'] / c['gamw'] / m2w
    Cva = Cvw * m2w / (m1ka * d) * c['ra']
    dTw = c['kw'] / s / mr / c['gamw'] / H**2
    dTa = Cva * m1ka * d / mr / H**2 / s
    n = np.linalg.inv([[1, Cw], [Ca, 1.]]) @ np.diag([Cvw, Cva])
    ev = np.linalg.eigvals(n)
    if np.abs(ev.imag).max() > 0 or ev.real.max() >= 0 or abs(ev[0] - ev[1]) < 1e-3 * abs(ev[0]):
        label('skipped: oscillating or growing problem')
        return False
    t0 = H**2 / np.abs(ev).min()
    t = np.array(c['T']) * t0
    Z = np.array(c['Z'])
    und = np.linalg.inv([[1, Cw], [Ca, 1.]]) @ [Csw, Csa]          # pressures right after a unit load
    q = c['q']
    text, kw = {}, {}
    big = float(2 * t.max())
    for k, f in (('wtop', 'f1'), ('atop', 'f2'), ('wbot', 'f3'), ('abot', 'f4')):
        if c[k] is None or (drn == 1 and k.endswith('bot')):
            continue
        w = c[k]['w'] / t0
        kw[f] = dict(type='sin', q0=c[k]['q0'], omega=w)
        text[k + '_vs_time'] = 'PolyLine([0, 0, %r], [0, %r, %r])' % (big, c[k]['q0'], c[k]['q0'])
        text[k + '_omega_phase'] = '(%r, %r)' % (w, -math.pi / 2)
    sv = ['PolyLine([0, 0, %r], [0, 1, 1])' % big]
    sd = ['PolyLine([0, 1], [%r, %r])' % tuple(q)]
    op = ['None']
    if c['f'] is not None:
        w = c['f']['w'] / t0
        kw['f'] = dict(type='sin', q0=c['f']['q0'], omega=w)
        sv.append('PolyLine([0, 0, %r], [0, %r, %r])' % (big, c['f']['q0'], c['f']['q0']))
        sd.append(const(1.))
        op.append('(%r, %r)' % (w, -math.pi / 2))
    porw, pora = shanetal2012(Z * H, t, H, Cw, Cvw, Ca, Cva, drn, Csw, Csa, tuple(v * und[0] for v in q), tuple(v * und[1] for v in q), N, **kw)
    a = prog(Speccon1dUnsat, H=H, drn=drn, neig=N, dT=float(c['dT'] / t0), mvref=mr, dTw=float(dTw), dTa=float(dTa), kw=const(s), Da=const(s, 1), ua_=c['ua_'], m1kw=const(c['m1kw']), m2w=const(c['m2w'], 1), m1ka=const(c['m1ka']), m2a=const(c['m2a']),
             n=const(c['por']), S=const(c['S'], 2), surcharge_vs_depth='[%s]' % ', '.join(sd), surcharge_vs_time='[%s]' % ', '.join(sv), surcharge_omega_phase='[%s]' % ', '.join(op), tvals=t, ppress_z=Z, implementation=c['impl'], **text)
    sc = max([abs(v) for v in q] + [abs(c[k]['q0']) for k in ('f', 'wtop', 'atop', 'wbot', 'abot') if c[k] is not None] + [1e-3]) * max(1, np.abs(und).max())
    close(a.porw, porw, 0, 1e-6 * sc, 'porw of Speccon1dUnsat and shanetal2012')
    close(a.pora, pora, 0, 1e-6 * sc, 'pora of Speccon1dUnsat and shanetal2012')
    label('boundary' if text else 'load')
    return middling(porw, sc) or middling(pora, sc)
