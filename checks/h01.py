"""H01: objects can be edited, solved again and asked in any order; two of them do not disturb each other.

Every operation of a generated history is compared with a fresh object given the inputs the used one has at that moment."""
from harness import *
import contextlib, io, warnings
from importlib import import_module
import fort
import speccon_ref as R
import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt
from geotecha.piecewise.piecewise_linear_1d import PolyLine
from geotecha.consolidation.schiffmanandstein1970 import SchiffmanAndStein1970
from geotecha.consolidation.nogamiandli2003 import NogamiAndLi2003
from geotecha.beam_on_foundation.specbeam import SpecBeam, MovingPointLoads
from geotecha.mathematics.laplace import Talbot
from geotecha.mathematics.hankel import HankelTransform
from geotecha.mathematics.fourier import FourierTransform
import s07, s08
C02, C03, C06, B01, B03 = [import_module(v) for v in ('c02', 'c03', 'c06', 'b01', 'b03')]
warnings.simplefilter('ignore')


def setup():
    fort.speccon()


CHECK = Check('H01', rule='an object was used again after an edit, or after another object of the same class was used', setup=setup,
              assumptions=['load histories are edited together with their cyclic factors (omega_phase); other attributes alone'])

EDIT = rec(keys=st.lists(st.integers(0, 60), min_size=0, max_size=4), src=st.integers(0, 1), full=st.sampled_from([False, False, True]), o=st.integers(0, 1), plots=st.sampled_from([False] * 5 + [True]))


def namespace(t):
    ns = {'PolyLine': PolyLine, 'np': np}
    exec(t, ns)
    return {k: v for k, v in ns.items() if k not in ('PolyLine', 'np', '__builtins__')}


def assign(a, old, new, full):
    """give the object the inputs `new`: all of them, or those that changed"""
    for k in (a._attributes if full else set(old) | set(new)):
        d = a._attribute_defaults.get(k)
        if full or repr(old.get(k, d)) != repr(new.get(k, d)):
            setattr(a, k, new.get(k, d))
            if k.endswith('_vs_time') or k in ('fixed_ppress', 'pumping'):
                p = k.replace('_vs_time', '') + '_omega_phase'
                if p in a._attributes:
                    setattr(a, p, new.get(p, a._attribute_defaults.get(p)))


def same(got, want, what, scale):
    close(np.asarray(got), np.asarray(want), 1e-9, 1e-9 * scale, what)


class Used(object):
    """an object with a history"""
    def __init__(self, cls, text, keys):
        self.cls, self.keys, self.text = cls, keys, text
        self.a = None

    def fresh(self):
        a = self.cls(self.text)
        a.make_all()
        return a

    def become(self, text, full):
        if self.a is None:
            self.a = self.cls(text)
        else:
            assign(self.a, namespace(self.text), namespace(text), full)
        self.text = text

    def get(self):
        return {k: np.array(getattr(self.a, k)) for k in self.keys}

    def solve(self, plots, what):
        self.a.make_all()
        if plots:
            self.a.produce_plots()
            plt.close('all')
        f = self.fresh()
        for k, v in self.get().items():
            w = np.asarray(getattr(f, k))
            same(v, w, '%s %s' % (k, what), max(np.abs(w).max() if w.size else 0, 1e-6))


def history(objs, states, ops, text, ok, keys_of):
    """objs: Used; states: current problem of each; ops: edits"""
    last = [None, None]
    n = 0
    for j, op in enumerate(ops):
        i = op['o']
        pool, cur = states[i]
        new = dict(cur)
        if op['full'] or not op['keys']:
            new = pool[op['src']]
        else:
            ks = keys_of(cur)
            for k in op['keys']:
                k = ks[k % len(ks)]
                new[k] = pool[op['src']][k]
        if not ok(i, new):
            continue
        again = objs[i].a is not None
        objs[i].become(text(i, new), op['full'])
        states[i] = pool, new
        objs[i].solve(op['plots'], 'of object %d after step %d (%s)' % (i, j, 'edited' if again else 'new'))
        last[i] = objs[i].get()
        o = 1 - i
        if last[o] is not None:
            for k, v in objs[o].get().items():
                require(np.array_equal(v, last[o][k], equal_nan=True), '%s of object %d changed when object %d was solved' % (k, o, i))
            n += 1
        n += again
    return n > 0


KINDS = sorted(s07.KIND)
SPEC = st.tuples(st.sampled_from(KINDS), st.booleans()).flatmap(lambda k: st.tuples(st.just(k[0]), s07.KIND[k[0]][1](), s07.KIND[k[0]][1]()))


@CHECK.test(rec(a=SPEC, b=maybe(SPEC), ops=st.lists(EDIT, min_size=2, max_size=6)), quick=200, thorough=6000)
def spectral(c):
    """the four spectral programs"""
    sp = [c['a'], c['b'] or [c['a'][0], c['a'][2], c['a'][1]]]
    ok = lambda i, p: R.has_load(p) and s07.valid(sp[i][0], p)
    objs = [Used(s07.KIND[k][0], None, s07.KIND[k][3].split()) for k, _, _ in sp]
    label(sp[0][0] + '+' + sp[1][0])
    # the mirrored pressure profiles of the plots need an ordered depth list
    return history(objs, [((p, q), p) for _, p, q in sp], c['ops'], lambda i, p: s07.KIND[sp[i][0]][2](p), ok, sorted)


def layered_text(kind, c):
    """source of a layered problem, or None"""
    c = dict(c, load=[list(v) for v in c['load']], tf=list(c['tf']), tpf=list(c['tpf']))
    for k in ('top', 'bot'):
        if isinstance(c[k], (list, tuple)):
            c[k] = list(c[k])
    if kind == 'SS':
        b, c = C02.build(c)
        if b is None or not C02.resolvable(*b, c):
            return None
        h, kv, mv = b
        return C02.text(h, kv, mv, c, np.array(c['zf']) * h.sum(), c['tf'], c['tpf'])
    b = C03.build(c)
    if b is None:
        return None
    h, kv, kh, mv, r = b
    if not C03.resolvable(h, kv, kh, mv, r, c):
        return None
    return C03.text(h, kv, kh, mv, r, c, np.array(c['zf']) * h.sum())


LAY = st.sampled_from(['SS', 'NL']).flatmap(lambda k: st.tuples(st.just(k), (C02 if k == 'SS' else C03).CASE, (C02 if k == 'SS' else C03).CASE))


@CHECK.test(rec(a=LAY, b=maybe(LAY), ops=st.lists(EDIT, min_size=2, max_size=5)), quick=60, thorough=1500)
def layered(c):
    """Schiffman and Stein, Nogami and Li"""
    sp = [c['a'], c['b'] or [c['a'][0], c['a'][2], c['a'][1]]]
    cls = dict(SS=SchiffmanAndStein1970, NL=NogamiAndLi2003)
    objs = [Used(cls[k], None, ['por', 'avp', 'set']) for k, _, _ in sp]
    memo = {}

    def text(i, p):
        key = repr((i, sorted(p.items())))
        if key not in memo:
            memo[key] = layered_text(sp[i][0], p)
        return memo[key]
    label(sp[0][0] + '+' + sp[1][0])
    with contextlib.redirect_stdout(io.StringIO()):
        return history(objs, [((p, q), p) for _, p, q in sp], c['ops'], text, lambda i, p: text(i, p) is not None, sorted)


@CHECK.test(rec(a=B01.ANA, b=B01.ANA, ops=st.lists(st.integers(0, 1), min_size=2, max_size=5)), quick=60, thorough=1500)
def beams(c):
    """SpecBeam objects used in turn"""
    objs = []
    for k in 'ab':
        if not c[k]['moving'] and not c[k]['stat']:
            return False
        objs.append(B01.setup(c[k])[1])
    with B01.quiet():
        want = []
        for kw in objs:
            a = SpecBeam(use_analytical=True, **kw)
            a.runme()
            want.append(np.array(a.defl_norm))
        used = [SpecBeam(use_analytical=True, **kw) for kw in objs]
        seen = set()
        for i in c['ops']:
            used[i].runme()
            seen.add(i)
            for j in seen:
                same(used[j].defl_norm, want[j], 'deflection of beam %d after running %r' % (j, c['ops']), max(np.abs(want[j]).max(), 1e-12))
    return True


OPS = st.lists(rec(t=st.lists(num(0.01, 1.3), min_size=1, max_size=4, unique=True), x=st.lists(frac(16), min_size=1, max_size=3), o=st.integers(0, 1), place=st.booleans()), min_size=2, max_size=4)


@CHECK.test(rec(a=rec(**B03.PAR), b=rec(**B03.PAR), ops=OPS), quick=25, thorough=500)
def ding(c):
    """DingEtAl2012 objects asked for other times and places"""
    par = [c['a'], c['b']]
    for p in par:
        p['n'] = min(p['n'], 2)
    built = [B03.build(p) for p in par]
    used = [B03.make(p, b[0]) for p, b in zip(par, built)]
    for op in c['ops']:
        i = op['o']
        p, (q, w0) = par[i], built[i]
        tn = np.array([0.] + sorted(op['t'])) / q['v']
        new = B03.make(p, q)
        for a in (used[i], new):
            a.calulate_qk(t_norm=tn)
        f = (lambda a: a.wofx(x_norm=np.array(op['x']))) if op['place'] else (lambda a: a.qsol)
        w = np.asarray(f(new))
        same(f(used[i]), w, 'answer of a used beam', max(np.abs(w).max(), 1e-12))
    return True


METHODS = 'u settlement Us Up effective_stress total_stress total_pore_pressure e vs vw xi'.split()


@CHECK.test(rec(c=C06.CASE, ops=st.lists(rec(m=st.sampled_from(METHODS), drn=st.booleans(), Z=st.lists(num(0, 1), min_size=1, max_size=3), T=st.lists(logu(5e-3, 2), min_size=1, max_size=3)), min_size=2, max_size=6)), quick=100, thorough=2000)
def xie(c):
    """XieAndLeo2004 asked in any order"""
    used, qu, H, e00 = C06.build(c['c'])
    for op in c['ops']:
        new = C06.build(c['c'])[0]
        a = np.array(op['Z']) * H
        t = np.array(op['T']) * H * H * c['c']['mvl'] * c['c']['gamw'] / c['c']['kv0']
        name = op['m'] + ('_PTIB' if op['drn'] else '_PTPB')
        args = (t,) if op['m'] in ('Us', 'Up') else (a, t)
        f, g = getattr(used, name), getattr(new, name)
        w = np.asarray(g(*args))
        same(f(*args), w, '%s of a used object' % name, max(np.abs(w[np.isfinite(w)]).max() if np.isfinite(w).any() else 0, 1e-12))
    return True


VEH = rec(x=st.lists(num(-5, 0), min_size=1, max_size=3), p=st.lists(num(-3, 3), min_size=3, max_size=3), off=num(-2, 0), v=maybe(num(0.5, 3)), L=maybe(num(5, 20)), t0=num(0, 2), x0=num(0, 2))
ASK = st.lists(rec(m=st.sampled_from(['axle_positions', 'time_axles_pass_point', 'convert_to_specbeam', 'point_loads_on_beam', 'time_axles_pass_beam_point']), a=num(0.1, 5), v=st.tuples(num(0.3, 4), st.booleans()), t0=num(0, 3), x0=num(0, 3), L=num(5, 30), own=st.booleans(), setv=maybe(num(0.3, 4))), min_size=2, max_size=6)


def plain(v):
    if isinstance(v, PolyLine):
        return v.xy.tolist()
    if isinstance(v, (list, tuple)):
        return [plain(w) for w in v]
    if isinstance(v, np.ndarray):
        return v.tolist()
    return v


@CHECK.test(rec(veh=VEH, ops=ASK), quick=300, thorough=5000)
def vehicles(c):
    """moving load groups asked in any order"""
    d = c['veh']
    mk = lambda v: MovingPointLoads(list(d['x']), d['p'][:len(d['x'])], offset=d['off'], v=v, L=d['L'], t0=d['t0'], x0=d['x0'])
    v = d['v']
    used = mk(v)
    for op in c['ops']:
        if op['setv'] is not None and v is not None:
            used.v = v = op['setv']
        new = mk(v)
        s = op['v'][0] * (-1 if op['v'][1] else 1)
        m = op['m']
        if m in ('point_loads_on_beam', 'time_axles_pass_beam_point') and (v is None or d['L'] is None):
            continue
        args = dict(axle_positions=dict(t=op['a'], v0=s, t0=op['t0'], x0=op['x0']), time_axles_pass_point=dict(x=op['a'], v0=s, t0=op['t0'], x0=op['x0']), point_loads_on_beam=dict(t=op['a']), time_axles_pass_beam_point=dict(x=op['a']),
                    convert_to_specbeam={} if op['own'] and v is not None and d['L'] is not None else dict(v=s, L=op['L'], t0=op['t0'], x0=op['x0']))[m]
        w = plain(getattr(new, m)(**args))
        got = plain(getattr(used, m)(**args))
        require(repr(got) == repr(w), '%s%r of a used group: %r, fresh %r' % (m, args, got, w))
    return True


@CHECK.test(rec(ops=st.lists(rec(o=st.integers(0, 3), v=st.lists(logu(0.1, 5), min_size=1, max_size=3), a=num(0.2, 3), scalar=st.booleans()), min_size=3, max_size=8), n=st.sampled_from([16, 24, 25]), m=st.integers(5, 25), order=st.integers(0, 1), pts=st.booleans(), sh=st.sampled_from([0., 0., 0.5])), quick=150, thorough=3000)
def transforms(c):
    """transform objects called in any order, with different places and arguments"""
    pts = [1.5] if c['pts'] else None
    mk = [lambda: Talbot(lambda s, a=1.: 1 / (s + a)**2, n=c['n'], shift=c['sh']),
          lambda: HankelTransform(lambda r, a=1.: np.exp(-r * r), order=c['order'], m=c['m'], points=pts),
          lambda: FourierTransform(lambda x: np.exp(-x * x), func_is_real=True, real_part_even=True),
          lambda: FourierTransform(lambda x: np.exp(-x * x), inv=True, func_is_real=True, real_part_even=True)]
    used = [f() for f in mk]
    for op in c['ops']:
        i = op['o']
        v = op['v'][0] if op['scalar'] or i == 1 else np.array(op['v'])
        if i > 1:
            v = float(np.atleast_1d(v)[0])
        args = (v, (op['a'],)) if i == 0 else (v,)
        w = np.asarray(mk[i]()(*args))
        same(used[i](*args), w, 'transform %d of a used object at %r' % (i, args), max(np.abs(w).max(), 1e-12))
    return len(set(op['o'] for op in c['ops'])) < len(c['ops'])
