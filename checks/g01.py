"""G01: figures are read back and compared with the data they were given."""
from harness import *
import matplotlib
matplotlib.use('agg')
import matplotlib.pyplot as plt
import matplotlib.gridspec as gridspec
import warnings
from geotecha.plotting import one_d as O
from geotecha.piecewise.piecewise_linear_1d import PolyLine
warnings.simplefilter('ignore')

CHECK = Check('G01', rule='two or more lines, loads or subplots', assumptions=['loads and material properties are not negative (the axes of those plots start at zero by design)'])

STYLE = st.sampled_from([dict(color='r', linestyle='-'), dict(color='#262626', marker='o', linestyle='None'), dict(color='b', dashes=(4, 2)), dict(marker='s', markersize=3., color='g', linewidth=2.5), dict(marker='^', markerfacecolor='none', color='k', alpha=.5), {}])
STYLES = maybe(st.lists(STYLE, min_size=1, max_size=4))
RL = maybe(num(-20, 20))
TEXT = st.sampled_from(['a', 'Depth (m)', 'q', 'x1', 'long label'])


def same_style(line, s, what):
    for k, v in s.items():
        if k == 'dashes':
            k, v, g = 'dashes', [w for w in v if w is not None], list(line._unscaled_dash_pattern[1] or [])
        else:
            g = getattr(line, 'get_' + k)()
        require(g == v, '%s: %s is %r, style says %r' % (what, k, g, v))


def default_styles():
    m = O.MarkersDashesColors(markersize=7)
    return m(markers=list(range(32)), dashes=[0])


def legend_ok(ax, names, prop, title):
    leg = ax.get_legend()
    require(leg is not None, 'legend missing')
    require([t.get_text() for t in leg.get_texts()] == names, lambda: 'legend reads %r, expected %r' % ([t.get_text() for t in leg.get_texts()], names))
    require(leg.get_title().get_text() == prop.get('title', title), lambda: 'legend title %r' % leg.get_title().get_text())
    require(all(t.get_fontsize() == prop.get('fontsize', 9) for t in leg.get_texts()), 'legend font size')


COMMON = dict(x=st.lists(grid(0, 10, 40), min_size=2, max_size=9, unique=True).map(sorted), cols=st.integers(1, 5), oned=st.booleans(), seed=st.integers(0, 999), labels=maybe(st.integers(1, 6)), styles=STYLES,
              H=num(.25, 20), RL=RL, xl=maybe(TEXT), yl=maybe(TEXT), legend=maybe(st.booleans()), lprop=maybe(st.sampled_from([dict(title='T'), dict(fontsize=12), dict(title='u', fontsize=5, loc='upper left')])), size=maybe(st.sampled_from([(3., 2.), (4., 6.)])), two=st.booleans())


def check_lines(c, fig, X, Y, xl, yl, title, what):
    ax, = fig.axes
    lines = ax.get_lines()
    n = X.shape[1]
    require(len(lines) == n, '%s: %d lines for %d data sets' % (what, len(lines), n))
    styles = c['styles'] or default_styles()
    for i, l in enumerate(lines):
        close(l.get_xdata(), X[:, i], 1e-13, 1e-15, '%s line %d x' % (what, i))
        close(l.get_ydata(), Y[:, i], 1e-13, 1e-15, '%s line %d y' % (what, i))
        same_style(l, styles[i % len(styles)], '%s line %d' % (what, i))
    require(ax.get_xlabel() == (c['xl'] or xl) and ax.get_ylabel() == (c['yl'] or yl), lambda: '%s axis labels %r %r' % (what, ax.get_xlabel(), ax.get_ylabel()))
    me = [l.get_markevery() for l in lines]
    require(all(m[1] == .1 and 0 <= m[0] <= .1 for m in me), lambda: 'markers every %r' % me)
    if c['labels'] is not None:
        k = min(c['labels'], n)
        require([l.get_label() for l in lines[:k]] == ['L%d' % i for i in range(k)], 'labels')
        if c['legend'] is not False:
            legend_ok(ax, ['L%d' % i for i in range(k)], c['lprop'] or {}, title)
    if c['labels'] is None or c['legend'] is False:
        require(ax.get_legend() is None, 'legend drawn though not asked for')
    close(fig.get_size_inches(), c['size'] or (18 / 2.54, 18 / 1.61 / 2.54), 1e-12, what='figure size')
    return ax


def props(c):
    p = {}
    for k, q in (('xl', 'xlabel'), ('yl', 'ylabel'), ('legend', 'has_legend'), ('lprop', 'legend_prop'), ('styles', 'styles')):
        if c[k] is not None:
            p[q] = c[k]
    if c['size']:
        p['fig_prop'] = dict(figsize=c['size'])
    return p


@CHECK.test(rec(**COMMON), quick=300, thorough=4000)
def vs_depth(c):
    """one line per column, at the given depths or reduced levels; depth points down"""
    plt.close('all')
    z = np.array(c['x'])
    n = 1 if c['oned'] else c['cols']
    x = np.random.RandomState(c['seed']).uniform(-3, 9, (len(z), n)).round(3)
    xx = x[:, 0].copy() if c['oned'] else x.copy()
    p = props(c)
    lab = None if c['labels'] is None else ['L%d' % i for i in range(c['labels'])]
    snap = snapshot(xx, z, p, lab)
    kw = dict(H=c['H'], prop_dict=p)
    if c['RL'] is not None:
        kw['RLzero'] = c['RL']
    fig = O.plot_vs_depth(xx, z, lab, **kw)
    if c['two']:      # a second plot is a second figure
        f1, fig = fig, O.plot_vs_depth(xx, z, lab, **kw)
        require(f1 is not fig and len(f1.axes[0].get_lines()) == n, 'second figure')
    same_snapshot(snap, xx, z, p, lab)
    Z = z * c['H'] if c['RL'] is None else c['RL'] - z * c['H']
    ax = check_lines(c, fig, x, np.tile(Z[:, None], (1, n)), 'x', 'Depth, z' if c['RL'] is None else 'RL', 'time:', 'plot_vs_depth')
    require(ax.yaxis_inverted() == (c['RL'] is None), 'depth axis points the wrong way')
    return n > 1


@CHECK.test(rec(**COMMON), quick=300, thorough=4000)
def vs_time(c):
    """one line per column at the given times"""
    plt.close('all')
    t = np.array(c['x'])
    n = 1 if c['oned'] else c['cols']
    y = np.random.RandomState(c['seed']).uniform(-3, 9, (len(t), n)).round(3)
    yy = y[:, 0].copy() if c['oned'] else y.copy()
    p = props(c)
    lab = None if c['labels'] is None else ['L%d' % i for i in range(c['labels'])]
    snap = snapshot(yy, t, p, lab)
    fig = O.plot_vs_time(t, yy, lab, p)
    same_snapshot(snap, yy, t, p, lab)
    ax = check_lines(c, fig, np.tile(t[:, None], (1, n)), y, 'Time, t', 'y', 'Depth interval:', 'plot_vs_time')
    require(not ax.yaxis_inverted() and not ax.xaxis_inverted(), 'axis inverted')
    return n > 1


def on_polyline(gx, gy, x, y, dx, what, factor=None):
    """(gx, gy) runs through every vertex of the polyline in order, straight (times factor) in between, in steps of at most dx"""
    x, y = np.asarray(x, float), np.asarray(y, float)
    f = (lambda v: np.ones_like(v)) if factor is None else factor
    k = 0
    require(len(gx) and gx[0] == x[0], what + ': first vertex')
    sc = max(1., np.max(np.abs(y)))
    for i in range(len(x) - 1):
        j = k + 1
        # end of the segment: the vertex i + 1
        while j < len(gx) and not (abs(gx[j] - x[i + 1]) <= 1e-12 * (1 + abs(x[i + 1])) and abs(gy[j] - y[i + 1] * f(x[i + 1:i + 2])[0]) < 1e-9 * sc):
            j += 1
        require(j < len(gx), lambda: '%s: vertex (%g, %g) is not drawn: %r' % (what, x[i + 1], y[i + 1], list(zip(gx, gy))))
        s = slice(k, j + 1)
        xs = gx[s]
        require(np.all(np.diff(xs) >= -1e-12), what + ': points go backwards')
        if x[i + 1] > x[i]:
            yi = y[i] + (y[i + 1] - y[i]) * (xs - x[i]) / (x[i + 1] - x[i])
            close(gy[s], yi * f(xs), 1e-9, 1e-11, what, scale=sc)
            require(np.all(np.diff(xs) <= 2 * dx * (1 + 1e-9)), lambda: '%s: step %g > %g' % (what, np.max(np.diff(xs)), dx))
        else:
            close(xs, np.full(len(xs), x[i]), 1e-12, 1e-12, what + ' jump')
            lo, hi = sorted((y[i] * f(x[i:i + 1])[0], y[i + 1] * f(x[i:i + 1])[0]))
            require(np.all((gy[s] >= lo - 1e-9 * sc) & (gy[s] <= hi + 1e-9 * sc)), what + ' jump values')
        k = j
    require(k == len(gx) - 1, what + ': points after the last vertex')


XY = st.tuples(st.lists(grid(0, 10, 40), min_size=2, max_size=5).map(sorted), st.lists(grid(0, 5, 20), min_size=5, max_size=5)).map(lambda v: [v[0], v[1][:len(v[0])]]).filter(lambda v: v[0][-1] > v[0][0] and all(a != b or v[0].count(a) == 2 for a, b in zip(v[0], v[0][1:])) and len(set(zip(*v))) == len(v[0]))
ZF = st.tuples(st.lists(grid(0, 1, 8), min_size=2, max_size=4, unique=True).map(sorted), st.lists(grid(0, 1, 8), min_size=4, max_size=4)).map(lambda v: [v[0], v[1][:len(v[0])]])
TRIPLE = rec(t=maybe(XY), ttuple=st.booleans(), z=ZF, ztuple=st.sampled_from([False, False, True]), z1=st.booleans(), om=maybe(st.tuples(st.sampled_from([0., .5, 2., -3.]), num(-2, 2))))


@CHECK.test(rec(loads=st.lists(st.lists(TRIPLE, min_size=1, max_size=3), min_size=1, max_size=4), yl=st.booleans(), tr=maybe(st.sampled_from([(0., 12.), (2., 6.)])), H=num(.25, 20), RL=RL, styles=STYLES, tl=maybe(TEXT), dl=maybe(TEXT), legend=maybe(st.booleans()), lprop=maybe(st.sampled_from([dict(title='T'), dict(fontsize=12)])), size=maybe(st.sampled_from([(8., 6.), (10., 6.)])), default=st.booleans()), quick=250, thorough=3000)
def loads(c):
    """loads against time and depth as their piecewise-linear definition"""
    plt.close('all')
    L = c['loads']
    triples = [[(None if q['t'] is None else (tuple(q['t']) if q['ttuple'] else PolyLine(*q['t'])),
                 ((q['z'][0][0], q['z'][1][0]) if q['z1'] else tuple(map(list, q['z']))) if q['ztuple'] else PolyLine(*q['z']),
                 q['om']) for q in row] for row in L]
    p = {}
    for k, q in (('styles', 'styles'), ('tl', 'time_axis_label'), ('dl', 'depth_axis_label'), ('legend', 'has_legend'), ('lprop', 'legend_prop')):
        if c[k] is not None:
            p[q] = c[k]
    if c['size']:
        p['fig_prop'] = dict(figsize=c['size'])
    names = ['N%d-' % i for i in range(len(L))]
    yl = ['load %d' % i for i in range(len(L))] if c['yl'] else None
    kw = dict(H=c['H'], prop_dict=p)
    if c['RL'] is not None:
        kw['RLzero'] = c['RL']
    if c['tr']:
        kw['trange'] = c['tr']
    snap = snapshot(triples, names, yl, p)
    fig = O.plot_generic_loads(triples, names, yl, **kw)
    same_snapshot(snap, triples, names, yl, p)
    n = len(L)
    require(len(fig.axes) == 2 * n, '%d axes for %d loads' % (len(fig.axes), n))
    ts = [v for row in L for q in row if q['t'] for v in q['t'][0]]
    tmin, tmax = c['tr'] or ((min(ts), max(ts)) if ts else (0., 1.))
    styles = c['styles'] or default_styles()
    k = 0
    for i, row in enumerate(L):
        a, b = fig.axes[2 * i], fig.axes[2 * i + 1]
        ga, gb = a.get_subplotspec(), b.get_subplotspec()
        require((ga.rowspan.start, ga.colspan.start, gb.rowspan.start, gb.colspan.start) == (i, 0, i, 1), 'position of load %d' % i)
        require(len(a.get_lines()) == len(b.get_lines()) == len(row), 'number of lines of load %d' % i)
        for j, (q, la, lb) in enumerate(zip(row, a.get_lines(), b.get_lines())):
            what = 'load %d,%d' % (i, j)
            require(la.get_label() == lb.get_label() == names[i] + str(j), what + ' label %r' % la.get_label())
            s = styles[k % len(styles)]
            same_style(la, s, what)
            same_style(lb, s, what)
            k += 1
            tx, ty = q['t'] or ([tmin, tmax], [0., 0.])
            dx = (tmax - tmin) / 20
            f = None
            if q['om']:
                w, ph = q['om']
                dx = min(dx, 2 * np.pi / abs(w) / 40) if w else dx
                f = lambda v, w=w, ph=ph: np.cos(w * v + ph)
            on_polyline(np.asarray(la.get_xdata()), np.asarray(la.get_ydata()), tx, ty, dx, what + ' vs time', f)
            m = la.get_markevery()
            require(m[1] == .1 and 0 <= m[0] <= .1, 'markers every %r' % (m,))
            zz, zf = np.asarray(lb.get_ydata(), float), np.asarray(lb.get_xdata(), float)
            zz = zz / c['H'] if c['RL'] is None else (c['RL'] - zz) / c['H']
            if q['ztuple']:
                close(zz, np.atleast_1d(q['z'][0][0] if q['z1'] else q['z'][0]), 1e-11, 1e-11, what + ' depths')
                close(zf, np.atleast_1d(q['z'][1][0] if q['z1'] else q['z'][1]), 1e-12, 1e-14, what + ' factors')
            else:
                x0 = np.asarray(q['z'][0])
                zz[np.abs(zz - x0[0]) < 1e-12 * (1 + abs(c['RL'] or 0))] = x0[0]
                on_polyline(zz, zf, x0, q['z'][1], (x0[-1] - x0[0]) / 8 + 1e-9, what + ' vs depth')
        require(a.get_ylabel() == (yl[i] if yl else 'y%d' % i), 'y label %r of load %d' % (a.get_ylabel(), i))
        require(b.get_ylabel() == (c['dl'] or ('Depth, z' if c['RL'] is None else 'RL')), 'depth label %r' % b.get_ylabel())
        last = i == n - 1
        require(a.get_xlabel() == ((c['tl'] or 'Time') if last else '') and b.get_xlabel() == ('Load factor' if last else ''), 'x labels %r %r' % (a.get_xlabel(), b.get_xlabel()))
        require(b.yaxis_inverted() == (c['RL'] is None), 'depth axis of load %d of %d points the wrong way' % (i, n))
        if c['tr']:
            close(a.get_xlim(), c['tr'], 1e-12, 0, 'time limits')
        else:
            lo, hi = a.get_xlim()
            require(lo <= tmin and hi >= tmax, 'time limits hide data')
        require(tuple(b.get_xlim()) == (0, 1.01), 'load factor limits')
        lo, hi = sorted(b.get_ylim())
        zs = np.concatenate([np.asarray(l.get_ydata(), float) for r in range(n) for l in fig.axes[2 * r + 1].get_lines()])
        require(lo <= zs.min() and hi >= zs.max(), 'depth limits hide data')
        if c['legend'] is False:
            require(a.get_legend() is None, 'legend')
        else:
            legend_ok(a, [names[i] + str(j) for j in range(len(row))], c['lprop'] or {}, 'Load:')
    if n > 1 and n % 2 == 0:
        label('even number of loads')
    if len(set(type(t[0]) for r in triples for t in r)) > 1:
        label('PolyLines, tuples and missing load histories mixed')
    return k > 1


@CHECK.test(rec(mats=st.lists(st.tuples(ZF, st.booleans(), logu(1e-3, 1e4)), min_size=1, max_size=5), H=num(.25, 20), RL=RL, styles=STYLES, yl=maybe(TEXT), size=maybe(st.sampled_from([(8., 6.), (10., 6.)]))), quick=250, thorough=3000)
def material(c):
    """soil properties side by side against one depth axis"""
    plt.close('all')
    M = c['mats']
    data = [PolyLine(z, [v * s for v in y]) if pl else (list(z), [v * s for v in y]) for (z, y), pl, s in M]
    p = {}
    if c['styles'] is not None:
        p['styles'] = c['styles']
    if c['yl']:
        p['ylabel'] = c['yl']
    if c['size']:
        p['fig_prop'] = dict(figsize=c['size'])
    lab = ['m%d' % i for i in range(len(M))]
    kw = dict(H=c['H'], prop_dict=p)
    if c['RL'] is not None:
        kw['RLzero'] = c['RL']
    snap = snapshot(data, lab, p)
    fig = O.plot_single_material_vs_depth(data, lab, **kw)
    same_snapshot(snap, data, lab, p)
    require(len(fig.axes) == len(M), 'number of axes')
    allz = []
    for i, (((z, y), pl, s), ax) in enumerate(zip(M, fig.axes)):
        l, = ax.get_lines()
        zz = np.asarray(l.get_ydata(), float)
        allz += list(zz)
        zz = zz / c['H'] if c['RL'] is None else (c['RL'] - zz) / c['H']
        zz[np.abs(zz - z[0]) < 1e-12 * (1 + abs(c['RL'] or 0))] = z[0]
        on_polyline(zz, np.asarray(l.get_xdata(), float) / s, z, y, (z[-1] - z[0]) / 8 + 1e-9, 'material %d' % i)
        require(ax.get_xlabel() == lab[i], 'x label')
        same_style(l, (c['styles'] or default_styles())[0], 'material %d' % i)
        require(ax.yaxis_inverted() == (c['RL'] is None), 'depth axis points the wrong way')
        lo, hi = ax.get_xlim()
        require(lo == 0 and hi >= max(y) * s, 'property limits %r hide data' % ((lo, hi),))
        require(ax.get_ylabel() == ('' if i else c['yl'] or ('Depth, z' if c['RL'] is None else 'RL')), 'y label %r' % ax.get_ylabel())
        require(ax.get_subplotspec().colspan.start == i, 'position')
    lo, hi = sorted(fig.axes[0].get_ylim())
    require(lo <= min(allz) and hi >= max(allz), 'depth limits hide data')
    return len(M) > 1


ITEM = rec(n=st.integers(2, 6), seed=st.integers(0, 99), sty=maybe(STYLE), kind=st.sampled_from([None, None, 'scatter', 'semilogx', 'fill_between', 'bar']), split=st.booleans(), fmt=st.booleans())


@CHECK.test(rec(shape=st.one_of(st.tuples(st.integers(1, 3), st.integers(1, 3)), st.sampled_from([(2, 3), (3, 2)])), data=st.one_of(st.lists(st.lists(ITEM, min_size=1, max_size=3), min_size=1, max_size=5), st.lists(st.lists(ITEM, min_size=1, max_size=1), min_size=4, max_size=6)), order=st.sampled_from([None, 'reverse', 'tuple', 'slice', 'np']), sx=st.sampled_from([None, 'one', 'list', 'list']), sy=st.sampled_from([None, 'one', 'list', 'list']), share=st.lists(st.one_of(st.none(), st.integers(0, 4), st.integers(0, 4)), min_size=12, max_size=12)), quick=350, thorough=4000)
def grid_plot(c):
    """every data set in its own grid cell, with its own plot type, options and shared axes"""
    plt.close('all')
    nr, nc = c['shape']
    D = c['data'][:nr * nc]
    n = len(D)
    fig = plt.figure()
    gs = gridspec.GridSpec(nr, nc)
    data = []
    for row in D:
        data.append([])
        for q in row:
            r = np.random.RandomState(q['seed'])
            x, y = np.sort(r.uniform(1, 9, q['n'])).round(3), r.uniform(1, 5, q['n']).round(3)
            it = [x, y] if q['kind'] or not q['fmt'] else [x, y, 'r--']
            if q['kind']:
                it.append({'plot_type': q['kind']})
            if q['split']:
                it.insert(1, {'label': 'first'})
                it.append({'label': 'second'})      # the later one counts
            if q['sty'] and not q['kind']:
                it.append(dict(q['sty']))
            data[-1].append(tuple(it))
    cells = list(range(n))
    idx = None
    if c['order'] == 'reverse':
        cells = cells[::-1]
        idx = cells
    elif c['order'] == 'np':
        idx = np.array(cells)
    elif c['order'] == 'tuple':
        idx = [(k // nc, k % nc) for k in cells]
    elif c['order'] == 'slice':
        idx = [slice(k, k + 1) for k in cells]

    def share(kind, v):
        if kind is None:
            return None, [None] * n
        if kind == 'one':
            return [0], [None] + [0] * (n - 1)
        s = [None if w is None or i == 0 else w % i for i, w in enumerate(v[:n])]
        if len(s) == 1:
            return None, [None]
        return s, s
    sx, wx = share(c['sx'], c['share'][:6])
    sy, wy = share(c['sy'], c['share'][6:])
    snap = snapshot(data, idx, sx, sy)
    ax = O.plot_data_in_grid(fig, data, gs, idx, sx, sy)
    same_snapshot(snap, data, idx, sx, sy)
    require(list(fig.axes) == list(ax) and len(ax) == n, 'axes')
    for i, row in enumerate(D):
        sp = ax[i].get_subplotspec()
        require(sp.rowspan.start * nc + sp.colspan.start == cells[i], 'subplot %d is in the wrong place' % i)
        lines = ax[i].get_lines()
        k = 0
        for q, it in zip(row, data[i]):
            kind = q['kind'] or 'plot'
            args = [v for v in it if not isinstance(v, dict)]
            lab = 'second' if q['split'] else None
            if kind in ('plot', 'semilogx'):
                l = lines[k]
                k += 1
                close(l.get_xdata(), args[0], 0, 0, 'x of subplot %d' % i)
                close(l.get_ydata(), args[1], 0, 0, 'y of subplot %d' % i)
                require(lab is None or l.get_label() == lab, 'label')
                if q['sty'] and not q['kind']:
                    same_style(l, {k_: v for k_, v in q['sty'].items() if not (q['fmt'] and k_ in ('linestyle', 'color'))}, 'subplot %d' % i)
        require(k == len(lines), 'lines of subplot %d' % i)
        for kind, cls in (('scatter', 'PathCollection'), ('fill_between', 'PolyCollection')):
            got = [o for o in ax[i].collections if type(o).__name__ == cls]
            want = [(q, it) for q, it in zip(row, data[i]) if q['kind'] == kind]
            require(len(got) == len(want), '%s objects in subplot %d' % (kind, i))
            if kind == 'scatter':
                for o, (q, it) in zip(got, want):
                    args = [v for v in it if not isinstance(v, dict)]
                    close(np.asarray(o.get_offsets()), np.column_stack(args), 0, 0, 'scatter data')
        bars = [p.get_height() for p in ax[i].patches]
        want = [v for q, it in zip(row, data[i]) if q['kind'] == 'bar' for v in [w for w in it if not isinstance(w, dict)][1]]
        require(bars == want, 'bars of subplot %d' % i)
        for axis, w, j in (('x', wx, 0), ('y', wy, 1)):
            grp = (ax[i].get_shared_x_axes if axis == 'x' else ax[i].get_shared_y_axes)()
            if w[i] is not None:
                require(grp.joined(ax[i], ax[w[i]]), '%s axis of subplot %d is not shared with %d' % (axis, i, w[i]))
            else:
                for m in range(i):
                    chain, todo = set(), [i]
                    root = lambda v, w=w: v if w[v] is None else root(w[v])
                    require(grp.joined(ax[i], ax[m]) == (root(i) == root(m)), '%s axis of subplots %d and %d' % (axis, i, m))
    return n > 1


class Log(object):
    def __init__(self):
        self.calls = []

    def m(self, *a):
        self.calls.append(a)


@CHECK.test(rec(n=st.integers(1, 4), unpack=st.booleans(), args=st.one_of(st.none(), st.lists(maybe(st.lists(st.integers(0, 9), min_size=1, max_size=3)), min_size=1, max_size=4)), labs=st.lists(maybe(TEXT), min_size=1, max_size=4), xlabs=maybe(st.lists(maybe(TEXT), min_size=1, max_size=4)), dic=st.lists(maybe(rec(linewidth=num(.5, 3), nosuch=st.integers(0, 1), label=TEXT)), min_size=1, max_size=4), one=st.booleans(), me=st.one_of(st.none(), st.integers(1, 9), st.sampled_from([.1, .25, 1.])), rs=st.booleans(), seed=maybe(st.integers(0, 99))), quick=250, thorough=3000)
def helpers(c):
    """methods called, labels and properties applied to exactly the objects asked for"""
    plt.close('all')
    objs = [Log() for i in range(c['n'])]
    args = None if c['args'] is None else (c['args'][:1] if len(c['args']) < 2 else (c['args'] * 4)[:c['n']])
    O.iterable_method_call(objs, 'm', c['unpack'], *([] if args is None else args))
    for i, o in enumerate(objs):
        if args is None:
            want = [()]
        else:
            a = args[0] if len(args) == 1 else args[i]
            want = [] if a is None else [tuple(a) if c['unpack'] else (a,)]
        require(o.calls == want, lambda: 'object %d called with %r, expected %r' % (i, o.calls, want))
    fig, axs = plt.subplots(1, 4)
    for a in axs:
        a.set_xlabel('old x')
        a.set_ylabel('old y')
    O.xylabel_subplots(fig, c['labs'], c['xlabs'])
    for i, a in enumerate(axs):
        w = (c['labs'] + [None] * 4)[i] or 'old y'
        v = ((c['xlabs'] or []) + [None] * 4)[i] or 'old x'
        require((a.get_ylabel(), a.get_xlabel()) == (w, v), 'labels of subplot %d: %r' % (i, (a.get_ylabel(), a.get_xlabel())))
    lines = [axs[0].plot([0, 1, 2], [0, 1, i])[0] for i in range(len(c['dic']))]
    old = [l.get_linewidth() for l in lines]
    dic = [dict(d) if d else None for d in c['dic']]
    if c['one']:
        O.apply_dict_to_object(lines[0], dic[0])
        want = [dic[0]] + [None] * (len(lines) - 1)
    else:
        O.apply_dict_to_object(lines, dic)
        want = dic
        raises(ValueError, lambda: O.apply_dict_to_object(lines, dic + [{}]), 'lists of different length')
    for l, d, o in zip(lines, want, old):
        require(l.get_linewidth() == (d['linewidth'] if d else o), 'line width')
        require(not d or l.get_label() == d['label'], 'label')
    require(dic == c['dic'], 'dictionaries altered')
    kw = {} if c['seed'] is None else dict(seed=c['seed'])
    O.apply_markevery_to_sequence_of_lines(lines, c['me'], c['rs'], **kw)
    got = [l.get_markevery() for l in lines]
    for g in got:
        if c['me'] is None or not c['rs']:
            require(g == c['me'], 'markevery %r' % (g,))
        else:
            require(g[1] == c['me'] and 0 <= g[0] <= c['me'] and type(g[0]) is type(c['me']), 'markevery %r' % (g,))
    if c['seed'] is not None and c['rs'] and c['me'] is not None:
        O.apply_markevery_to_sequence_of_lines(lines, c['me'], c['rs'], **kw)
        require([l.get_markevery() for l in lines] == got, 'same seed, different markers')
    fig.canvas.draw()
    return len(lines) > 1


@CHECK.test(rec(ext=st.lists(st.sampled_from(['png', 'pdf', 'eps', 'svg']), min_size=1, max_size=3, unique=True), dpi=st.sampled_from([50, 75, 100]), size=st.sampled_from([(2., 1.), (3., 4.)]), obj=st.sampled_from(['rgb_tint', 'copy_dict', 'Test', 'split_sequence_into_dict_and_nondicts'])), quick=12, thorough=120)
def saving(c):
    """saved files in every format asked for, with the resolution asked for; source code figures hold the source"""
    import os, shutil, tempfile, inspect
    plt.close('all')
    d = tempfile.mkdtemp(prefix='vpfig')
    try:
        fig = plt.figure(figsize=c['size'])
        fig.add_subplot(111).plot([0, 1], [1, 2])
        O.save_figure(fig, os.path.join(d, 'f.g'), c['ext'], c['dpi'])
        require(sorted(os.listdir(d)) == sorted('f.g.' + e for e in c['ext']), lambda: 'files %r' % os.listdir(d))
        for e in c['ext']:
            with open(os.path.join(d, 'f.g.' + e), 'rb') as f:
                head = f.read(200)
            require({'png': b'\x89PNG', 'pdf': b'%PDF', 'eps': b'%!PS', 'svg': b'<?xml'}[e] == head[:{'png': 4, 'pdf': 4, 'eps': 4, 'svg': 5}[e]], e + ' content')
            if e == 'png':
                wh = int.from_bytes(head[16:20], 'big'), int.from_bytes(head[20:24], 'big')
                require(wh == tuple(int(v * c['dpi']) for v in c['size']), 'png of %r pixels' % (wh,))
    finally:
        shutil.rmtree(d)
    import harness
    o = harness.Test if c['obj'] == 'Test' else getattr(O, c['obj'])
    f2 = O.figure_from_source_code(o, figsize=c['size'])
    t = f2.axes[0].texts
    require(len(t) == 1 and t[0].get_text() == ''.join(inspect.getsourcelines(o)[0]), 'source text')
    close(f2.get_size_inches(), c['size'], 1e-12, what='figure size')
    return len(c['ext']) > 1
