"""S07: the same consolidation problem written down differently gives the same results (metamorphic)."""
import copy
from harness import *
import fort
import speccon_ref as R
from geotecha.piecewise.piecewise_linear_1d import PolyLine
from geotecha.speccon.speccon1d_vr import Speccon1dVR
from geotecha.speccon.speccon1d_vrw import Speccon1dVRW
from geotecha.speccon.speccon1d_vrc import Speccon1dVRC
from geotecha.speccon.speccon1d_unsat import Speccon1dUnsat

CHECK = Check('S07', rule='the rewritten input differs from the original, has a load and non-zero results', setup=fort.speccon,
              assumptions=['load histories start from zero and last until the last output time'])

KIND = {'vr': (Speccon1dVR, R.vr_inputs, R.vr_text, 'por avp set'), 'vrw': (Speccon1dVRW, R.vrw_inputs, R.vrw_text, 'por porwell avp set'),
        'vrc': (Speccon1dVRC, R.vrc_inputs, R.vrc_text, 'por pors porc avp avps avpc set'), 'unsat': (Speccon1dUnsat, R.unsat_inputs, R.unsat_text, 'porw pora avpw avpa setw seta set')}
FAM = ('surcharge', 'vacuum', 'top', 'bot', 'fixed', 'pumping', 'wtop', 'wbot', 'atop', 'abot')


def hist(fam, e):
    """the timed part of one load (None: constant zero target of fixed_ppress)"""
    return e['v'] if fam in ('surcharge', 'vacuum', 'fixed', 'pumping') else e


def fams(c):
    return [f for f in FAM if c.get(f)]


def profiles(c):
    """every profile dict in the case"""
    out = [c[k] for k in ('mv', 'kw', 'Da', 'm1kw', 'm2w', 'm1ka', 'm2a', 'n', 'S') if isinstance(c.get(k), dict)]
    for k in ('vert', 'rad', 'well', 'col'):
        if c.get(k):
            out += [v for v in c[k].values() if isinstance(v, dict)]
    return out + [e['d'] for k in ('surcharge', 'vacuum') for e in c.get(k, [])]


def scale(p, f):
    p['t'] = [v * f for v in p['t']]
    p['b'] = [v * f for v in p['b']]


def pick(seq, i):
    return seq[i % len(seq)]


# each rewrite edits the case in place and returns the factor by which results change (None: not applicable)
def order(c, i, f):
    q = [k for k in fams(c) if len(c[k]) > 1]
    if not q:
        return None
    c[pick(q, i)].reverse()
    return 1.


def split_load(c, i, f):
    q = [(k, j) for k in fams(c) for j, e in enumerate(c[k]) if k != 'fixed' and hist(k, e)]
    if not q:
        return None
    k, j = pick(q, i)
    e = c[k][j]
    n = copy.deepcopy(e)
    for p in hist(k, e)['h']:
        p[1] *= f
    for p in hist(k, n)['h']:
        p[1] *= 1 - f
    c[k].insert(i % (len(c[k]) + 1), n)
    return 1.


def split_layer(c, i, f):
    p = pick(profiles(c), i)
    j = i % len(p['t'])
    za, zb = p['z'][j], p['z'][j + 1]
    z = round(za + (zb - za) * (0.25 + 0.5 * abs(f) % 1), 6)
    if not za < z < zb:
        return None
    v = p['t'][j] + (p['b'][j] - p['t'][j]) * (z - za) / (zb - za)
    p['z'].insert(j + 1, z)
    p['t'].insert(j + 1, v)
    p['b'].insert(j, v)
    return 1.


def move_factor(c, i, f):
    q = [e for k in ('surcharge', 'vacuum') for e in c.get(k, [])]
    if not q:
        return None
    e = pick(q, i)
    for p in e['v']['h']:
        p[1] *= f
    scale(e['d'], 1 / f)
    return 1.


def change_dT(c, i, f):
    c['dT'] = c['dT'] * abs(f)
    return 1.


def rescale_flow(c, i, f):
    f = abs(f)
    q = []
    for k, d, p in (('vert', 'dTv', 'kv'), ('rad', 'dTh', 'kh'), ('rad', 'dTh', 'et'), ('well', 'dTw', 'kw'), ('col', 'dTvc', 'kvc'), ('col', 'dThc', 'khc')):
        if c.get(k):
            q.append((c[k], d, p))
    if 'Da' in c:
        q += [(c, 'dTw', 'kw'), (c, 'dTa', 'Da')]
    if not q:
        return None
    d, a, b = pick(q, i)
    d[a] *= f
    scale(d[b], 1 / f)
    return 1.


def rescale_store(c, i, f):
    f = abs(f)
    c['mvref'] *= f
    for k in ('mv', 'm1kw', 'm2w', 'm1ka', 'm2a'):
        if k in c:
            scale(c[k], 1 / f)
    for k in ('vert', 'rad', 'well', 'col'):
        if c.get(k):
            for a in ('dTv', 'dTh', 'dTw', 'dTvc', 'dThc'):
                if a in c[k]:
                    c[k][a] /= f
    if 'dTa' in c:
        c['dTw'] /= f
        c['dTa'] /= f
    for e in c.get('fixed', []):
        e['k'] /= f
    return 1.


def small_store(c, i, f):
    """storage coefficients in other units, down to millionths (1/kPa) and less"""
    return rescale_store(c, i, 10. ** (i % 19 - 9))


def clock(c, i, f):
    """another unit of time, from seconds for a problem that lasts years to centuries for one that lasts seconds"""
    F = 10. ** (i % 21 - 10)
    for k in fams(c):
        for e in c[k]:
            v = hist(k, e)
            if v:
                v['h'] = [[p[0] * F, p[1] / F if k == 'pumping' else p[1]] for p in v['h']]
                if v['op']:
                    v['op'] = [v['op'][0] / F, v['op'][1]]
    c['tvals'] = [t * F for t in c['tvals']]
    for d in [c] + [c[k] for k in ('vert', 'rad', 'well', 'col') if c.get(k)]:
        for a in ('dTv', 'dTh', 'dTw', 'dTvc', 'dThc', 'dTa'):
            if a in d:
                d[a] /= F
    for e in c.get('fixed', []):
        e['k'] /= F
    return 1.


def pascal(c, i, f):
    """loads in another unit of pressure"""
    return multiply(c, i, 10. ** (i % 13 - 6))


def change_impl(c, i, f):
    c['implementation'] = pick([v for v in ('scalar', 'vectorized', 'fortran') if v != c['implementation']], i)
    return 1.


def notation(c, i, f):
    p = pick(profiles(c), i)
    p['four'] = not p['four']
    c['single'] = not c['single']
    return 1.


def multiply(c, i, f):
    if not R.has_load(c):
        return None
    for k in fams(c):
        for e in c[k]:
            if hist(k, e):
                for p in hist(k, e)['h']:
                    p[1] *= f
    return f


def future(c, i, f):
    q = [(k, e) for k in fams(c) for e in c[k] if hist(k, e)]
    if not q:
        return None
    k, e = pick(q, i)
    h = hist(k, e)['h']
    t = h[-1][0]
    h += [[t, h[-1][1] * f + 1], [t + 2, f]]
    return 1.


def later(c, i, f):
    dt = round(abs(f), 3)
    for k in fams(c):
        for e in c[k]:
            v = hist(k, e)
            if v:
                v['h'] = [[p[0] + dt, p[1]] for p in v['h']]
                if v['op']:
                    v['op'] = [v['op'][0], v['op'][1] - v['op'][0] * dt]
    c['tvals'] = [t + dt for t in c['tvals']]
    return 1.


def full_turn(c, i, f):
    q = [hist(k, e) for k in fams(c) for e in c[k] if hist(k, e) and hist(k, e)['op']]
    if not q:
        return None
    v = pick(q, i)
    w, p = v['op']
    v['op'] = pick([[w, p + 2 * math.pi], [w, p - 2 * math.pi], [-w, -p]] if False else [[w, p + 2 * math.pi], [w, p - 2 * math.pi]], i)
    return 1.


def sign_by_phase(c, i, f):
    """a cosine load half a turn later is the same load with the opposite sign"""
    q = [hist(k, e) for k in fams(c) for e in c[k] if hist(k, e) and hist(k, e)['op']]
    if not q:
        return None
    v = pick(q, i)
    v['op'] = [v['op'][0], v['op'][1] + math.pi]
    for p in v['h']:
        p[1] *= -1
    return 1.


def upside_down(c, i, f):
    """two-way drainage: depth measured from the other end"""
    if c['drn'] != 0:
        return None
    for p in profiles(c):
        p['z'] = [round(1 - z, 9) for z in p['z'][::-1]]
        p['t'], p['b'] = p['b'][::-1], p['t'][::-1]
    for a, b in (('top', 'bot'), ('wtop', 'wbot'), ('atop', 'abot')):
        if a in c:
            c[a], c[b] = c[b], c[a]
    for k in ('fixed', 'pumping'):
        for e in c.get(k, []):
            e['z'] = round(1 - e['z'], 9)
    c['ppress_z'] = [round(1 - z, 9) for z in c['ppress_z']]
    for k in ('avg_ppress_z_pairs', 'settlement_z_pairs'):
        c[k] = [[round(1 - b, 9), round(1 - a, 9)] for a, b in c[k]]
    return 1.


def mirrored(c, i, f):
    """one-way drainage is the top half of a symmetric layer drained both ways"""
    if c['drn'] != 1 or c.get('bot') or c.get('wbot') or c.get('abot'):
        return None
    if c['neig'] > 6:
        return None
    c['drn'] = 0
    c['neig'] *= 2
    c['H'] *= 2
    for p in profiles(c):
        z = [v / 2 for v in p['z']]
        p['z'] = z + [1 - v for v in z[-2::-1]]
        p['t'], p['b'] = p['t'] + p['b'][::-1], p['b'] + p['t'][::-1]
    for a, b in (('top', 'bot'), ('wtop', 'wbot'), ('atop', 'abot')):
        if a in c:
            c[b] = copy.deepcopy(c[a])
    c['ppress_z'] = [z / 2 for z in c['ppress_z']]
    for k in ('avg_ppress_z_pairs', 'settlement_z_pairs'):
        c[k] = [[a / 2, b / 2] for a, b in c[k]]
    for k, a in (('vert', 'dTv'), ('well', 'dTw'), ('col', 'dTvc'), (None, 'dTw'), (None, 'dTa')):
        d = c.get(k) if k else (c if 'dTa' in c else None)
        if d:
            d[a] /= 4
    for k in ('fixed', 'pumping'):
        for e in list(c.get(k, [])):
            e['z'] /= 2
            if k == 'fixed':
                e['k'] /= 2   # the weight is per normalised depth
            n = copy.deepcopy(e)
            n['z'] = 1 - n['z']
            c[k].append(n)
    return 1.


MOVES = dict((g.__name__, g) for g in (small_store, clock, pascal, order, split_load, split_layer, move_factor, change_dT, rescale_flow, rescale_store, change_impl, notation, multiply, future, later,
                                       full_turn, sign_by_phase, upside_down, mirrored))


def results(kind, c, how, extra=()):
    cls, _, text, keys = KIND[kind]
    t = text(c) + ''.join(extra)
    if how == 'text':
        a = cls(t)
    else:
        ns = {'PolyLine': PolyLine, 'np': np}
        exec(t, ns)
        a = cls()
        for k in ns:
            if k not in ('PolyLine', 'np', '__builtins__'):
                setattr(a, k, ns[k])
    a.make_all()
    return dict((k, np.array(getattr(a, k))) for k in keys.split())


def size(c, k, got):
    s = R.load_size(c)
    if k.startswith('set'):
        s *= c['H'] * c['mvref'] * max(max(abs(v) for v in c[m]['t'] + c[m]['b']) for m in ('mv', 'm1kw', 'm2w', 'm1ka', 'm2a') if m in c)
    return max(np.abs(got).max(), 0.02 * s)


def cases(kind, sub):
    move = st.tuples(st.sampled_from(sorted(MOVES)), st.integers(0, 30), st.sampled_from([0.5, 2., -1.5, 0.3, 3.]))
    return rec(c=KIND[kind][1](), moves=st.lists(move, min_size=1, max_size=4), how=st.sampled_from(['text', 'attributes']), how2=st.sampled_from(['text', 'attributes']))


def valid(kind, c):
    if kind == 'vr' and not (c['vert'] or c['rad']):
        return False
    if kind == 'unsat' and R.unsat_ref(c) is None:
        return False
    return True


def body(kind, case):
    c = case['c']
    if not R.has_load(c) or not valid(kind, c):
        return False
    base = results(kind, c, case['how'])
    d = copy.deepcopy(c)
    factor, used = 1., []
    for name, i, f in case['moves']:
        if name in used or (name == 'future' and 'clock' in used) or (name == 'later' and 'clock' in used):
            continue
        r = MOVES[name](d, i, f)
        if r is not None:
            factor *= r
            used.append(name)
    for name in used:
        label(name)
    if 'mirrored' in used and not valid(kind, d):      # the full layer also has antisymmetric modes
        label('skipped: oscillating or growing problem')
        return False
    other = results(kind, d, case['how2'])
    for k in base:
        want = base[k] * factor
        close(other[k], want, 3e-5, 1e-9, '%s after %s' % (k, '+'.join(used)), scale=abs(factor) * size(c, k, base[k]))
    return bool(used or case['how'] != case['how2']) and R.load_size(c) > 0 and max(np.abs(v).max() for v in base.values()) > 0


@CHECK.test(cases('vr', 0), quick=500, thorough=20000)
def vr(case):
    return body('vr', case)


@CHECK.test(cases('vrw', 0), quick=400, thorough=20000)
def vrw(case):
    return body('vrw', case)


@CHECK.test(cases('vrc', 0), quick=400, thorough=20000)
def vrc(case):
    return body('vrc', case)


@CHECK.test(cases('unsat', 0), quick=400, thorough=20000)
def unsat(case):
    return body('unsat', case)


def outputs_of(n):
    return st.lists(st.integers(0, n - 1), min_size=1, max_size=n, unique=True).map(sorted)


@CHECK.test(rec(kind=st.sampled_from(sorted(KIND)), cs=st.tuples(*[KIND[k][1]() for k in sorted(KIND)]).map(lambda t: dict(zip(sorted(KIND), t))),
                por=outputs_of(5), avp=outputs_of(5), set=outputs_of(5), mode=st.sampled_from(['index', 'slice', 'fewer', 'depths']), rl=st.booleans()), quick=300, thorough=15000)
def subset(case):
    """results asked for at some times / depths only equal those of the full run"""
    kind = case['kind']
    c = copy.deepcopy(case['cs'][kind])
    if not R.has_load(c) or not valid(kind, c):
        return False
    base = results(kind, c, 'text')
    n = len(c['tvals'])
    extra, sel, rows = [], {}, {}
    idx = dict((k, [i for i in case[k] if i < n] or [0]) for k in ('por', 'avp', 'set'))
    if case['mode'] == 'index':
        for k, name in (('por', 'ppress_z'), ('avp', 'avg_ppress_z_pairs'), ('set', 'settlement_z_pairs')):
            extra.append('%s_tval_indexes = %r\n' % (name, idx[k]))
    elif case['mode'] == 'slice':
        for k, name in (('por', 'ppress_z'), ('avp', 'avg_ppress_z_pairs'), ('set', 'settlement_z_pairs')):
            a = idx[k][0]
            idx[k] = list(range(a, n))
            extra.append('%s_tval_indexes = slice(%d, None)\n' % (name, a))
    elif case['mode'] == 'fewer':
        idx = dict((k, idx['por']) for k in idx)
        c['tvals'] = [c['tvals'][i] for i in idx['por']]
    else:
        idx = dict((k, list(range(n))) for k in idx)
        for k, name in (('por', 'ppress_z'), ('avp', 'avg_ppress_z_pairs'), ('set', 'settlement_z_pairs')):
            rows[k] = list(range(len(c[name])))[::-1]
            c[name] = [c[name][i] for i in rows[k]]
    if case['rl']:
        extra.append('RLzero = 4.5\n')
    got = results(kind, c, 'text', extra)
    for k in base:
        f = k[:3]
        want = base[k][:, idx[f]]
        if rows:
            want = want[rows[f]]
        close(got[k], want, 1e-9, 1e-9, '%s (%s)' % (k, case['mode']), scale=size(c, k, base[k]))
    return R.load_size(c) > 0 and max(np.abs(v).max() for v in base.values()) > 0
