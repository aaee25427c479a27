"""G02: colours, styles, index maps and dictionary helpers against direct definitions."""
from harness import *
import matplotlib
matplotlib.use('agg')
import matplotlib.pyplot as plt
import itertools, warnings
from geotecha.plotting import one_d as O
warnings.simplefilter('ignore')

CHECK = Check('G02', rule='a factor strictly between 0 and 1, or lists of different lengths, or more than one dimension, or keys in several dictionaries')


@CHECK.test(rec(rgb=st.lists(frac(255), min_size=3, max_size=4), f=st.one_of(frac(64), st.sampled_from([0, 1, .5])), scaled=st.booleans(), default=st.booleans(), bad=st.one_of(num(-3, -1e-6), num(1.000001, 4))), quick=3000, thorough=60000)
def colours(c):
    """shades and tints move the stated fraction towards black or white, stay in range and keep alpha"""
    top = 1. if c['scaled'] else 255
    rgb = tuple(v * top for v in c['rgb'][:3]) + tuple(c['rgb'][3:])
    kw = {} if c['scaled'] and c['default'] else dict(scaled=c['scaled'])
    f = c['f']
    for fn, target in ((O.rgb_shade, 0.), (O.rgb_tint, top)):
        # shade: factor 1 keeps the colour; tint: factor 0 keeps the colour
        keep = f if fn is O.rgb_shade else 1 - f
        got = fn(rgb, f, **kw)
        require(isinstance(got, tuple) and len(got) == len(rgb), '%s gives %r' % (fn.__name__, got))
        close(got[:3], [target + (v - target) * keep for v in rgb[:3]], 1e-12, 1e-12 * top, fn.__name__)
        require(all(-1e-12 <= v <= top * (1 + 1e-12) for v in got[:3]), 'colour out of range %r' % (got,))
        require(got[3:] == rgb[3:], 'alpha changed')
        raises(ValueError, lambda: fn(rgb, c['bad'], **kw), '%s factor %g' % (fn.__name__, c['bad']))
        require(fn(list(rgb), f, **kw) == got, 'list colour')
    close(O.rgb_shade(rgb), rgb, 0, 0, 'default shade')
    close(O.rgb_tint(rgb, **kw), rgb, 1e-15, 1e-15, 'default tint')
    return 0 < f < 1


IDX = lambda n: maybe(st.lists(st.one_of(st.integers(0, n - 1), st.integers(0, n - 1), st.none()), min_size=0, max_size=9))


@CHECK.test(rec(m=IDX(32), d=IDX(6), mc=IDX(7), lc=IDX(7), kw=st.sampled_from([{}, dict(color='r'), dict(markersize=9), dict(color=(1., 0., 0.), alpha=.5, markeredgewidth=2), dict(markerfacecolor='b')]), recol=maybe(st.tuples(st.booleans(), frac(16))), draw=st.sampled_from([False, False, False, True])), quick=1200, thorough=20000)
def styles(c):
    """style i takes marker, dash and colours i of the lists asked for, each list repeated as needed"""
    M = O.MarkersDashesColors(**c['kw'])
    col = c['kw'].get('color', '#262626')
    M0 = O.MarkersDashesColors()
    require(len(M.markers) == 32 and len(M.dashes) == 6 and len(M.colors) == 7, 'number of markers, dashes, colours')
    base = dict(markersize=5, markeredgecolor=col, markeredgewidth=1, markerfacecolor=col, alpha=.9, color=col)
    base.update(c['kw'])
    own = M.markers
    M.construct_markers()
    spec = M.markers      # only what the marker itself defines
    M.markers = own
    for a, b in zip(own, spec):
        require(a == dict(base, **b), 'default marker merged: %r from %r' % (a, b))
    before = [tuple(v) for v in M.colors]
    if c['recol']:
        tint, f = c['recol']
        (M.tint_colors if tint else M.shade_colors)(f)
        close(M.colors, [[v + (1 - v) * f if tint else v * f for v in q] for q in before], 1e-12, 1e-12, 'recoloured')
    lists = [c['m'], c['d'], c['mc'], c['lc']]
    arg = [None if v is None else list(v) for v in lists]
    n = max([len(v) for v in lists if v is not None] + [0])
    if n and any(v == [] for v in lists):
        return False      # nothing to cycle through
    got = M(*arg)
    same_snapshot([None if v is None else list(v) for v in lists], *arg, what='style list')
    if n == 0:
        lists = [list(range(32)), list(range(6)), list(range(7)), list(range(7))]
        n = 32
    require(len(got) == n, '%d styles, expected %d' % (len(got), n))
    for i, s in enumerate(got):
        m, d, mc, lc = [None if v is None else v[i % len(v)] for v in lists]
        want = {}
        if m is None:
            want['marker'] = 'none'
        else:
            want.update(own[m])
            k = col if mc is None else M.colors[mc]
            for q in ('markeredgecolor', 'markerfacecolor'):
                if own[m][q] != 'none':
                    want[q] = k
        if d is None:
            want['linestyle'] = 'None'
        else:
            want['dashes'] = M.dashes[d]
        want['color'] = col if lc is None else M.colors[lc]
        require(s == want, lambda: 'style %d is %r, expected %r' % (i, s, want))
    # independent of each other and of the stored options
    ref = snapshot(M.markers, M.dashes, M.colors)
    for s in got:
        s['marker'] = 'x'
        s['alpha'] = 0
    same_snapshot(ref, M.markers, M.dashes, M.colors, what='stored options')
    require(O.MarkersDashesColors().markers == M0.markers and O.MarkersDashesColors().colors == M0.colors, 'objects share options')
    M.construct_styles(*arg)
    require(M.styles == M(*arg), 'construct_styles')
    if c['draw']:
        plt.close('all')
        fig, ax = plt.subplots()
        for s in M.styles:
            ax.plot([0, 1, 2], [0, 1, 0], **s)
        fig.canvas.draw()
        plt.close('all')
        show, plt.show = plt.show, lambda: None
        try:
            M.demo_styles()
            M.demo_options()
            f1, f2 = [plt.figure(k) for k in plt.get_fignums()][-2:] if len(plt.get_fignums()) > 1 else [plt.figure(1)] * 2
            f2.canvas.draw()
        finally:
            plt.show = show
            plt.close('all')
        label('styles drawn')
    return len(set(len(v) for v in lists if v)) > 1


@CHECK.test(rec(shape=st.lists(st.integers(1, 4), min_size=1, max_size=4), steps=maybe(st.lists(st.sampled_from([1, -1]), min_size=4, max_size=4)), tr=st.booleans(), kind=st.sampled_from(['tuple', 'list', 'array'])), quick=3000, thorough=50000)
def index_map(c):
    """position of every cell after reversing the dimensions asked for and transposing"""
    sh = c['shape']
    steps = None if c['steps'] is None else c['steps'][:len(sh)]
    conv = {'tuple': tuple, 'list': list, 'array': np.array}[c['kind']]
    got = O.row_major_order_reverse_map(conv(sh), None if steps is None else conv(steps), c['tr'])
    cells = list(itertools.product(*[range(n) for n in sh]))
    number = {v: i for i, v in enumerate(cells)}
    st_ = steps or [1] * len(sh)
    pos = {v: number[tuple(k if s == 1 else n - 1 - k for k, s, n in zip(v, st_, sh))] for v in cells}
    if c['tr']:
        order = [v[::-1] for v in itertools.product(*[range(n) for n in sh[::-1]])]
    else:
        order = cells
    want = [pos[v] for v in order]
    require(list(got) == want, lambda: 'map of %r %r %s: %r, expected %r' % (sh, steps, c['tr'], list(got), want))
    require(sorted(got) == list(range(len(cells))), 'not a permutation')
    if not c['tr']:
        require([got[i] for i in got] == list(range(len(cells))), 'reversing twice')
    return len(sh) > 1 and len(cells) > 2


DICT = st.dictionaries(st.sampled_from('abcde'), st.integers(0, 9), max_size=4)
ITEM = st.one_of(DICT, st.integers(0, 9), st.text(alphabet='xy', max_size=2), st.lists(st.integers(0, 3), max_size=2), st.none())


@CHECK.test(rec(a=DICT, b=DICT, items=st.lists(ITEM, max_size=7), nested=st.booleans()), quick=2000, thorough=40000)
def dicts(c):
    """merging keeps order, lets the later value win and leaves its inputs alone"""
    a, b = dict(c['a']), dict(c['b'])
    got = O.copy_dict(a, b)
    require(got == {k: b[k] if k in b else a[k] for k in set(a) | set(b)}, lambda: 'copy_dict(%r, %r) = %r' % (a, b, got))
    require(a == c['a'] and b == c['b'] and got is not a and got is not b, 'inputs altered')
    got['zz'] = 1
    require('zz' not in a and 'zz' not in b, 'result shares storage')
    items = snapshot(*c['items'])
    snap = snapshot(*items)
    non, dic = O.split_sequence_into_dict_and_nondicts(*items)
    want_n = [v for v in items if not isinstance(v, dict)]
    want_d = {}
    for v in items:
        if isinstance(v, dict):
            for k in v:
                want_d[k] = v[k]
    require(non == want_n and all(x is y for x, y in zip(non, want_n)) and isinstance(non, list), lambda: 'non-dict items %r' % (non,))
    require(dic == want_d, lambda: 'merged %r, expected %r' % (dic, want_d))
    dic['zz'] = 0
    non.append(0)
    same_snapshot(snap, *items)
    return len([v for v in items if isinstance(v, dict) and v]) > 1


@CHECK.test(rec(n=st.integers(1, 8), again=st.booleans()), quick=6, thorough=60, shards=2)
def defaults(c):
    """pleasing_defaults sets the documented look"""
    with matplotlib.rc_context():
        O.pleasing_defaults()
        if c['again']:
            O.pleasing_defaults()
        import brewer2mpl
        set2 = brewer2mpl.get_map('Set2', 'qualitative', 8).mpl_colors
        plt.close('all')
        fig, ax = plt.subplots()
        for i in range(c['n']):
            l, = ax.plot([0, 1], [i, i])
            close(l.get_color(), set2[i % 8], 1e-12, what='colour %d of the cycle' % i)
        require(matplotlib.rcParams['axes.edgecolor'] == matplotlib.rcParams['text.color'] == '#262626' and matplotlib.rcParams['axes.linewidth'] == .5, 'axes look')
        plt.close('all')
    return c['n'] > 1
