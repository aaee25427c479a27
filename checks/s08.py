"""S08: what the spectral programs save and plot is what they computed."""
import csv, glob, os, shutil, tempfile
from harness import *
import fort
import speccon_ref as R
from s07 import KIND, fams, valid
from g01 import on_polyline
import matplotlib
matplotlib.use('agg')
import matplotlib.pyplot as plt
import matplotlib.image

CHECK = Check('S08', rule='a load acts, results are not zero and at least two kinds of output are asked for', setup=fort.speccon,
              assumptions=['drawn histories may use steps up to twice the documented fraction of the range (as for G01)'])
POR = {'vr': 'por', 'vrw': 'por porwell', 'vrc': 'por pors porc', 'unsat': 'porw pora'}
AVP = {'vr': 'avp', 'vrw': 'avp', 'vrc': 'avp avps avpc', 'unsat': 'avpw avpa'}
SET = {'vr': 'set', 'vrw': 'set', 'vrc': 'set', 'unsat': 'set setw seta'}
OUT = ('ppress_z', 'avg_ppress_z_pairs', 'settlement_z_pairs')
# order of the load families and of the material properties on their figures
LOADS = {'surcharge': 'surch', 'vacuum': 'vac', 'top': 'top', 'bot': 'bot', 'fixed': 'fixed p', 'pumping': 'pump', 'wtop': 'wtop', 'wbot': 'wbot', 'atop': 'atop', 'abot': 'abot'}
WORDS = {'surcharge': 'surcharge', 'vacuum': 'vacuum', 'top': 'top', 'bot': 'bot', 'fixed': 'fixed', 'pumping': 'pump', 'wtop': 'top water', 'wbot': 'bot water', 'atop': 'top air', 'abot': 'bot air'}
REF = {'vr': 'kvref khref etref', 'vrw': 'kvref khref etref kwref', 'vrc': 'kvref khref etref kvcref khcref', 'unsat': 'kwref Daref'}


def materials(kind, c):
    """name -> profile"""
    m = {}
    if kind == 'unsat':
        return {k: c[k] for k in 'm1kw m2w m1ka m2a kw Da S n'.split()}
    m['mv'] = c['mv']
    for part in ('vert', 'rad', 'well', 'col'):
        if c.get(part):
            m.update((k, v) for k, v in c[part].items() if isinstance(v, dict))
    return m


def xy(p):
    """vertices of a profile as text input gives them"""
    x, y = [p['z'][0]], [p['t'][0]]
    for i in range(len(p['t'])):
        if i and p['t'][i] != p['b'][i - 1]:
            x.append(p['z'][i]); y.append(p['t'][i])
        x.append(p['z'][i + 1]); y.append(p['b'][i])
    return x, y


def level(c, z, H):
    z = np.asarray(z, float)
    return z * H if c['rl'] is None else c['rl'] - z * H


def picks(n):
    return st.lists(st.integers(0, n - 1), min_size=1, max_size=n, unique=True).map(sorted)


def prep(case):
    kind, c = case['kind'], case['cs'][case['kind']]
    want = [k for k, w in zip(OUT, case['want']) if w] or [OUT[case['seed'] % 3]]
    c = dict(c)
    text = KIND[kind][2](c)
    text = '\n'.join(l for l in text.split('\n') if not any(l.startswith(k + ' =') for k in OUT if k not in want)) + '\n'
    n = len(c['tvals'])
    idx = {}
    for k, name in zip(('por', 'avp', 'set'), OUT):
        i = [v for v in case['idx'][k] if v < n] or [0]
        if not case['all']:
            text += '%s_tval_indexes = %r\n' % (name, i)
        idx[k] = list(range(n)) if case['all'] else i
    if case['rl'] is not None:
        text += 'RLzero = %r\n' % case['rl']
    refs = {k: round(v, 4) for k, v in zip(REF[kind].split(), case['refs']) if v is not None}
    text += ''.join('%s = %r\n' % kv for kv in refs.items())
    for k in ('title', 'author'):
        if case[k]:
            text += '%s = %r\n' % (k, case[k])
    return kind, c, want, text, idx, refs


def tables(kind, want):
    """name of each result -> (depth list, index key)"""
    t = {}
    for names, name, key in ((POR, OUT[0], 'por'), (AVP, OUT[1], 'avp'), (SET, OUT[2], 'set')):
        if name in want:
            t.update((k, (name, key)) for k in names[kind].split())
    return t


CASE = rec(kind=st.sampled_from(sorted(KIND)), cs=st.tuples(*[KIND[k][1]() for k in sorted(KIND)]).map(lambda t: dict(zip(sorted(KIND), t))), seed=st.integers(0, 99),
           want=st.tuples(st.booleans(), st.booleans(), st.booleans()), idx=rec(por=picks(5), avp=picks(5), set=picks(5)), all=st.booleans(), rl=maybe(num(-20, 20)),
           refs=st.lists(maybe(logu(1e-9, 100)), min_size=5, max_size=5), title=maybe(st.sampled_from(['Case A', 'x, y; z'])), author=maybe(st.just('A. Name')))


def labels(c, name, H):
    z = level(c, 0, H)
    out = []
    for v in c['c'][name]:
        out.append('%.3g' % level(c, v, H) if name == 'ppress_z' else '%.3g to %.3g' % tuple(level(c, v, H)))
    return out


@CHECK.test(CASE.flatmap(lambda d: rec(d=st.just(d), fig=st.sampled_from([None, None, None, '.png', '.svg']), ext=st.sampled_from(['.csv', '.dat']), sub=st.booleans(), over=st.booleans(), runs=st.integers(1, 3))), quick=250, thorough=8000)
def files(case):
    """every result asked for goes to its own file with its times, depths and headings; figures too when asked for"""
    d = case['d']
    kind, c, want, text, idx, refs = prep(d)
    if not R.has_load(c) or not valid(kind, c):
        return False
    tmp = tempfile.mkdtemp(prefix='vpout')
    try:
        text += 'save_data_to_file = True\ncreate_directory = %r\ndirectory = %r\nprefix = "q"\ndata_ext = %r\noverwrite = %r\n' % (case['sub'], tmp, case['ext'], case['over'])
        if case['fig']:
            text += 'save_figures_to_file = True\nfigure_ext = %r\n' % case['fig']
        for run in range(case['runs'] if not case['fig'] else 1):
            a = KIND[kind][0](text)
            a.make_all()
        last = 1 if case['over'] else (run + 1)
        stem = 'q%04d' % last
        top = sorted(os.listdir(tmp))
        folder = os.path.join(tmp, stem) if case['sub'] else tmp
        if case['sub']:
            require(top == ['q%04d' % (i + 1) for i in range(last)], 'directories %s after %d runs' % (top, run + 1))
        T = tables(kind, want)
        have = sorted(f for f in os.listdir(folder) if f.startswith(stem))
        figs = ['fig_' + k for k in T] + ['fig_loads', 'fig_materials'] if case['fig'] else []
        expect = sorted([stem + '_data_' + k + case['ext'] for k in T] + [stem + '_input_original.py', stem + '_input_parsed.py'] + [stem + '_' + f + case['fig'] for f in figs])
        require(have == expect, 'files %s instead of %s' % (have, expect))
        with open(os.path.join(folder, stem + '_input_original.py')) as f:
            require(f.read() == text, 'original input text')
        H = c['H']
        for k, (name, key) in T.items():
            data = np.asarray(getattr(a, k))
            require(data.shape == (len(c[name]), len(idx[key])), '%s has shape %s' % (k, data.shape))
            with open(os.path.join(folder, stem + '_data_' + k + case['ext'])) as f:
                raw = f.read()
            lines = list(csv.reader(raw.split('\n')))
            i = [j for j, l in enumerate(lines) if l and l[0].startswith('idex')]
            require(len(i) == 1, 'heading of %s' % k)
            head = '\n'.join(raw.split('\n')[:i[0]])
            require(a.__class__.__name__.lower().replace('speccon1d', 'speccon1d_') in head and (d['author'] or 'unknown') in head and (not d['title'] or d['title'] in head), 'header %r' % head)
            require(lines[i[0]][:2] == ['idex', 'Time'], 'heading %r' % lines[i[0]])
            require(lines[i[0]][2:] == labels(dict(rl=d['rl'], c=c), name, H), 'column labels %r of %s' % (lines[i[0]][2:], k))
            body = np.array([[float(v) for v in l] for l in lines[i[0] + 1:] if l])
            require(body.shape == (len(idx[key]), len(c[name]) + 2), 'shape %s of file %s' % (body.shape, k))
            close(body[:, 1], np.array(c['tvals'])[idx[key]], 1e-12, 0, k + ' times')
            close(body[:, 2:], data.T, 1e-12, 1e-300, k + ' saved values')
        if case['fig'] == '.png':
            for f in figs:
                im = matplotlib.image.imread(os.path.join(folder, stem + '_' + f + '.png'))
                require(im.shape[0] > 50 and im[..., :3].min() < im[..., :3].max(), 'empty picture ' + f)
        if case['fig']:
            label('figures saved')
        return R.load_size(c) > 0 and len(T) > 1
    finally:
        plt.close('all')
        shutil.rmtree(tmp)


@CHECK.test(rec(d=CASE, props=st.sampled_from([None, 'xlabel', 'legend']), twice=st.booleans()), quick=300, thorough=8000)
def figures(case):
    """every result is drawn against its depths or times; loads and material profiles are drawn as given"""
    d = case['d']
    kind, c, want, text, idx, refs = prep(d)
    if not R.has_load(c) or not valid(kind, c):
        return False
    plt.close('all')
    H = c['H']
    a = KIND[kind][0](text)
    a.make_all()
    T = tables(kind, want)
    pp = {}
    if case['props'] == 'xlabel':
        for k, (name, key) in T.items():
            pp[k] = {'xlabel' if key == 'por' else 'ylabel': 'my ' + k}
    elif case['props'] == 'legend':
        pp = {k: dict(has_legend=False) for k in T}
    if pp:
        a.plot_properties = copy_of(pp)
    try:
        for again in range(2 if case['twice'] else 1):
            plt.close('all')
            a.produce_plots()
            check(a, kind, c, d, T, idx, refs, case, H)
    finally:
        plt.close('all')
    return R.load_size(c) > 0 and len(T) > 1


def copy_of(p):
    return {k: dict(v) for k, v in p.items()}


def check(a, kind, c, d, T, idx, refs, case, H):
    figs = [f.get_label() for f in a._figures]
    require(sorted(figs) == sorted(['fig_' + k for k in T] + ['fig_loads', 'fig_materials']), 'figures %s' % figs)
    F = dict(zip(figs, a._figures))
    require(len(set(map(id, a._figures))) == len(figs), 'figures are shared')
    tv = np.array(c['tvals'])
    for k, (name, key) in T.items():
        ax, = F['fig_' + k].axes
        data = np.asarray(getattr(a, k))
        ls = ax.get_lines()
        if key == 'por':
            require(len(ls) == len(idx[key]), '%d lines of %s' % (len(ls), k))
            for j, l in enumerate(ls):
                close(np.asarray(l.get_xdata(), float), data[:, j], 1e-12, 1e-300, k + ' drawn')
                close(np.asarray(l.get_ydata(), float), level(d, c[name], H), 1e-12, 1e-12, k + ' depths drawn')
                require(l.get_label() == '%.3g' % tv[idx[key][j]], 'label %r of %s at t=%r' % (l.get_label(), k, tv[idx[key][j]]))
            axis = ax.get_xlabel()
        else:
            require(len(ls) == len(c[name]), '%d lines of %s' % (len(ls), k))
            for j, l in enumerate(ls):
                close(np.asarray(l.get_xdata(), float), tv[idx[key]], 1e-12, 0, k + ' times drawn')
                close(np.asarray(l.get_ydata(), float), data[j], 1e-12, 1e-300, k + ' drawn')
                require(l.get_label() == '%.3g to %.3g' % tuple(level(d, c[name][j], H)), 'label %r of %s' % (l.get_label(), k))
            axis = ax.get_ylabel()
        if case['props'] == 'xlabel':
            require(axis == 'my ' + k, 'axis label %r of %s' % (axis, k))
        else:
            require(axis.strip(), 'no axis label on %s' % k)
        require((ax.get_legend() is None) == (case['props'] == 'legend'), 'legend of %s' % k)
    # loads: one row per family, in the order of the documentation
    ax = F['fig_loads'].axes
    fam = [f for f in LOADS if c.get(f) and (f != 'vacuum' or c['rad'])]        # vacuum needs radial drainage
    require(len(ax) == 2 * len(fam), '%d axes for loads %s' % (len(ax), fam))
    hist = {f: [e['v'] if f in ('surcharge', 'vacuum', 'fixed', 'pumping') else e for e in c[f]] for f in fam}
    ts = [p[0] for f in fam for v in hist[f] for p in (v['h'] if v else [[tv[0], 0], [tv[-1], 0]])]
    tmin, tmax = min(ts), max(ts)
    rows = dict(zip([x.get_lines()[0].get_label()[:-1] for x in ax[::2]], zip(ax[::2], ax[1::2])))
    require(sorted(rows) == sorted(LOADS[f] for f in fam), 'load rows %s' % sorted(rows))
    for f in fam:
        A, B = rows[LOADS[f]]
        require(all(w in A.get_ylabel().lower() for w in WORDS[f].split()), 'axis label %r for %s' % (A.get_ylabel(), f))
        require(len(A.get_lines()) == len(B.get_lines()) == len(c[f]), '%d lines for %d loads %s' % (len(A.get_lines()), len(c[f]), f))
        for j, (e, v, la, lb) in enumerate(zip(c[f], hist[f], A.get_lines(), B.get_lines())):
            if v:
                w = tuple(v['op']) if v['op'] else None
                x, y = zip(*v['h'])
            else:
                w, x, y = None, (tv[0], tv[-1]), (0., 0.)
            dx = (tmax - tmin) / 20
            if w and w[0]:
                dx = min(dx, 2 * np.pi / abs(w[0]) / 40)
            if len(set(x)) == len(x) and x[-1] > x[0]:
                on_polyline(np.asarray(la.get_xdata(), float), np.asarray(la.get_ydata(), float), x, y, dx, '%s %d' % (f, j), (lambda q: np.cos(w[0] * q + w[1])) if w else None)
            zz, zf = np.asarray(lb.get_ydata(), float), np.asarray(lb.get_xdata(), float)
            if f in ('surcharge', 'vacuum'):
                zn = zz / H if d['rl'] is None else (d['rl'] - zz) / H
                X, Y = xy(e['d'])
                close(zn[[0, -1]], [0, 1], 1e-9, 1e-9, f + ' depth range')
                for q, u in zip(zn, zf):
                    i = np.clip(np.searchsorted(np.array(e['d']['z']), q) - 1, 0, len(e['d']['t']) - 1)
                    vals = []
                    for i in range(len(e['d']['t'])):
                        za, zb = e['d']['z'][i], e['d']['z'][i + 1]
                        if za - 1e-9 <= q <= zb + 1e-9:
                            vals.append(e['d']['t'][i] + (e['d']['b'][i] - e['d']['t'][i]) * (q - za) / (zb - za))
                    require(min(vals) - 1e-6 <= u <= max(vals) + 1e-6, '%s factor %r at depth %r, profile has %r' % (f, u, q, vals))
            else:
                z0 = e['z'] if f in ('fixed', 'pumping') else (0. if f.endswith('top') else 1.)
                close(zz, [level(d, z0, H)], 1e-12, 1e-12, '%s drawn at depth' % f)
                close(zf, [1.], 1e-12, 1e-14, '%s load factor' % f)
    # material profiles
    ax = F['fig_materials'].axes
    M = materials(kind, c)
    require(len(ax) == len(M), '%d axes for materials %s' % (len(ax), sorted(M)))
    left = dict(M)
    for x in ax:
        l, = x.get_lines()
        zz, v = np.asarray(l.get_ydata(), float), np.asarray(l.get_xdata(), float)
        zn = zz / H if d['rl'] is None else (d['rl'] - zz) / H
        zn[np.abs(zn) < 1e-9] = 0.
        zn = np.round(zn, 9)
        ok = None
        for name, p in left.items():
            if not label_of(name, x.get_xlabel()):
                continue
            ok = name
            on_polyline(zn, v, *xy(p), 1 / 8. + 1e-9, 'material ' + name)
            ref = c['mvref'] if name in ('mv', 'm1kw', 'm2w', 'm1ka', 'm2a') else refs.get(name + 'ref', 1.) if name + 'ref' in REF[kind].split() else None
            if ref is not None:
                require('=%s' % '{:g}'.format(ref) in x.get_xlabel(), 'reference value %r in %r' % (ref, x.get_xlabel()))
            break
        require(ok, 'axis %r shows none of %s' % (x.get_xlabel(), sorted(left)))
        del left[ok]


def label_of(name, text):
    """symbol at the start of an axis label"""
    t = text.replace('{', '').replace('}', '').replace('\\', '').replace('$', '')
    key = {'mv': 'm_v/', 'kv': 'k_v/', 'kh': 'k_h/', 'et': 'eta/', 'kw': 'k_w/', 'kvc': 'k_vc/', 'khc': 'k_hc/', 'm1kw': 'm_1k^w/', 'm2w': 'm_2^w/', 'm1ka': 'm_1k^a/', 'm2a': 'm_2^a/', 'Da': 'D_a^ast/', 'S': 'Saturation', 'n': 'Porosity'}[name]
    return t.startswith(key)
