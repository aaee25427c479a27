"""I03: files written read back to what was computed, stems never collide, caller's data is left alone."""
from harness import *
import csv, io, os, shutil, tempfile, contextlib
import fort
import pandas as pd
import matplotlib
matplotlib.use('agg')
import matplotlib.pyplot as plt
import geotecha.inputoutput.inputoutput as IO
from geotecha.piecewise.piecewise_linear_1d import PolyLine

CHECK = Check('I03', rule='several data sets or saves, existing files in the way, labels needing quotes, or nested values', setup=fort.speccon,
              assumptions=['attribute values are None, numbers, strings, containers, finite numeric arrays and PolyLines, which is what input files can hold', 'headers without line breaks at the end'])


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix='vpio')
    old = os.getcwd()
    try:
        os.chdir(d)
        yield d
    finally:
        os.chdir(old)
        shutil.rmtree(d)


def tree(d):
    out = {}
    for r, ds, fs in os.walk(d):
        for f in fs:
            with open(os.path.join(r, f), 'rb') as g:
                out[os.path.relpath(os.path.join(r, f), d)] = g.read()
        for f in ds:
            out[os.path.relpath(os.path.join(r, f), d) + '/'] = None
    return out


# ---------------------------------------------------------------- numbered stems
PRE = st.sampled_from(['out', 'o', 'a.b', 'run(1)_', 'x+', 'p[q]', 'out0', 'Out_', 'a-', '$z', '^', 'out1x', ''])
ENT = st.tuples(PRE, st.one_of(st.integers(0, 12), st.sampled_from([99, 100, 999, 1000, 12345])), st.sampled_from([0, 2, 3, 4, 6]), st.sampled_from(['', '.csv', '_input.py', 'x7', '/', ' copy', '_12', '.5']))


@CHECK.test(rec(pre=PRE, have=st.lists(ENT, max_size=6), plain=st.lists(st.sampled_from(['out', 'outx.csv', 'a.b', 'aXb7', 'run1_5', 'xx3', 'OUT004', 'my_out005', 'x+_2', '7']), max_size=2, unique=True), start=maybe(st.integers(0, 7)), inc=maybe(st.integers(1, 5)), zf=maybe(st.integers(0, 6)), over=st.booleans(), cwd=st.booleans()), quick=1500, thorough=30000)
def stems(c):
    """next_output_stem against the listing"""
    with scratch() as d:
        names = []
        for p, n, z, s in c['have']:
            nm = p + str(n).zfill(z) + s.rstrip('/')
            if nm in names or not nm:
                continue
            names.append(nm)
            if s == '/':
                os.mkdir(nm)
            else:
                open(nm, 'w').close()
        for nm in c['plain']:
            if nm not in names:
                names.append(nm)
                open(nm, 'w').close()
        nums = []
        for nm in names:
            if nm.startswith(c['pre']):
                r = nm[len(c['pre']):]
                k = 0
                while k < len(r) and r[k] in '0123456789':
                    k += 1
                if k:
                    nums.append(int(r[:k]))
        start, inc, zf = 1 if c['start'] is None else c['start'], c['inc'] or 1, 3 if c['zf'] is None else c['zf']
        n = start if not nums else max(nums) + (0 if c['over'] else inc)
        want = c['pre'] + str(n).zfill(zf)
        kw = {}
        for k, v in (('start', c['start']), ('inc', c['inc']), ('zfill', c['zf'])):
            if v is not None:
                kw[k] = v
        if c['over']:
            kw['overwrite'] = True
        if not c['cwd']:
            kw['path'] = d
            os.chdir('/')
        try:
            got = IO.next_output_stem(c['pre'], **kw)
        finally:
            os.chdir(d)
        require(got == want, lambda: 'stem %r, expected %r with %r' % (got, want, names))
        if not c['over']:
            require(not any(nm.startswith(got) and not nm[len(got):len(got) + 1].isdigit() for nm in names), 'collision')
        require(sorted(os.listdir('.')) == sorted(names), 'files changed')
        raises(ValueError, lambda: IO.next_output_stem(c['pre'], path=os.path.join(d, 'nothing', 'here')), 'missing folder')
    label('existing' if nums else 'none yet')
    return bool(nums) and len(set(nums)) != len(names)


# ---------------------------------------------------------------- grid data
LAB = st.sampled_from(['a', 'depth, z', 'say "x"', "it's", '', ' sp ', 't=1.5', 'é', '2', '#x', 'None', 'two words'])
VALUE = st.one_of(num(-9, 9), st.sampled_from([1e-300, 1e300, 1 / 3., -0.1, 123456789.123456789, 1e-17, 2.5e15]))
DD = rec(rows=st.integers(1, 4), cols=st.integers(1, 3), vals=st.lists(VALUE, min_size=12, max_size=12), kind=st.sampled_from(['float', 'float', 'int', 'list', 'frame', '1d', 'str']), name=maybe(st.sampled_from(['_a', '_b', '_c', '_d', '', '_long name'])), rl=maybe(st.lists(st.one_of(LAB, VALUE), min_size=4, max_size=4)), rll=maybe(LAB), cl=maybe(st.lists(LAB, min_size=3, max_size=3)), npl=st.booleans(), header=maybe(st.sampled_from(['head', 'a, b', 'two\nlines', '"q', ''])), kw=st.sampled_from([None, None, {}, {'sep': ';'}, {'float_format': '%.17e'}, {'header': False}, {'na_rep': 'x'}]), none=st.integers(0, 9))


def build(c):
    n, m = c['rows'], c['cols']
    if c['kind'] == '1d':
        m = 1
    a = np.array(c['vals'][:n * m]).reshape(n, m)
    d = {}
    if c['kind'] == 'int':
        a = np.floor(np.clip(a, -1e9, 1e9)).astype(int)
    data = a
    if c['kind'] == 'list':
        data = a.tolist()
    if c['kind'] == 'str':
        data = a = np.array([['s,%d' % i] * m for i in range(n)])
    cols = [str(i) for i in range(m)]
    if c['cl'] is not None:
        d['column_labels'] = c['cl'][:m]
        cols = list(d['column_labels'])
    idx = [str(i) for i in range(n)]
    if c['kind'] == '1d':
        data = a.ravel()
    if c['rl'] is not None:
        d['row_labels'] = c['rl'][:n]
        if c['npl']:
            d['row_labels'] = np.array(c['rl'][:n])
        if c['rll'] is not None:
            d['row_labels_label'] = c['rll']
            if c['rll'] in cols:
                return None
    if c['kind'] == 'frame':
        cols = ['f%d' % i for i in range(m)]
        idx = ['i%d' % i for i in range(n)]
        data = pd.DataFrame(a, columns=cols, index=idx)
    d['data'] = data
    if c['none'] == 0:
        d['data'] = None
    if c['name'] is not None:
        d['name'] = c['name']
    if c['header'] is not None:
        d['header'] = c['header']
    if c['kw'] is not None:
        d['df_kwargs'] = dict(c['kw'])
    lab = None
    if c['rl'] is not None and c['kind'] != 'frame':
        lab = (d.get('row_labels_label', 'item'), list(d['row_labels']))
    return d, a, cols, idx, lab


def read_grid(text, c, info):
    d, a, cols, idx, lab = info
    h = d.get('header')
    if h is not None:
        require(text.startswith(h + '\n'), 'header %r in %r' % (h, text))
        text = text[len(h) + 1:]
    kw = d.get('df_kwargs', {})
    rows = list(csv.reader(io.StringIO(text), delimiter=kw.get('sep', ',')))
    want = ['idex'] + ([lab[0]] if lab else []) + cols
    if kw.get('header', True):
        require(rows[0] == want, lambda: 'column headings %r, expected %r' % (rows[0], want))
        rows = rows[1:]
    require(len(rows) == len(a), 'number of rows')
    for i, r in enumerate(rows):
        require(len(r) == len(want) and r[0] == idx[i], lambda: 'row %r' % r)
        k = 1
        if lab:
            l = lab[1][i]
            require(r[1] == str(l) or (not isinstance(l, str) and float(r[1]) == float(l)), lambda: 'row label %r, expected %r' % (r[1], l))
            k = 2
        if a.dtype.kind == 'U':
            require(r[k:] == a[i].tolist(), 'text data')
        else:
            require([float(v) for v in r[k:]] == a[i].tolist(), lambda: 'data %r, expected %r' % (r[k:], a[i].tolist()))


@CHECK.test(rec(dds=st.lists(DD, max_size=3), stem=maybe(st.sampled_from(['out_007', 's.p', 'q r'])), ext=maybe(st.sampled_from(['.csv', '.txt', '', '.a.b'])), cd=st.booleans(), dirn=st.sampled_from(['none', 'have', 'new']), other=st.lists(st.sampled_from(['out_000_x.csv', 'zzz', 'out_000/keep', 'out_007_a.csv.old']), max_size=2, unique=True), twice=st.booleans(), single=st.booleans()), quick=600, thorough=12000)
def grids(c):
    """save_grid_data_to_file and make_array_into_dataframe"""
    infos = []
    for q in c['dds']:
        b = build(q)
        if b is None or (b[4] and isinstance(b[4][1], list) and len(set(map(type, b[4][1]))) > 1 and q['npl']):
            return False
        if any(b[0].get('name', '') == o[0].get('name', '') for o in infos):
            return False
        infos.append(b)
    dicts = [b[0] for b in infos]
    if c['ext'] == '' and any(not x.get('name') for x in dicts):
        return False   # may be the name of a folder
    with scratch() as d:
        base = {'none': d, 'have': os.path.join(d, 'sub'), 'new': os.path.join(d, 'fresh')}[c['dirn']]
        if c['dirn'] == 'have':
            os.mkdir(base)
        if c['dirn'] != 'new':
            for o in c['other']:
                p = os.path.join(base, o)
                if not os.path.isdir(os.path.dirname(p)):
                    os.mkdir(os.path.dirname(p))
                with open(p, 'w') as g:
                    g.write('old')
        before = tree(d)
        kw = {}
        if c['dirn'] != 'none':
            kw['directory'] = base
        if c['stem']:
            kw['file_stem'] = c['stem']
        if c['ext'] is not None:
            kw['ext'] = c['ext']
        if not c['cd']:
            kw['create_directory'] = False
        arg = dicts[0] if c['single'] and len(dicts) == 1 else dicts
        keep = [dict(x) for x in dicts]
        snap = [snapshot(*[x.get(k) for k in sorted(x) if k != 'data']) for x in dicts]
        for rep in range(2 if c['twice'] else 1):
            IO.save_grid_data_to_file(arg, **kw)
            after = tree(d)
            stem, ext = c['stem'] or 'out_000', '.csv' if c['ext'] is None else c['ext']
            sub = os.path.relpath(os.path.join(base, stem) if c['cd'] else base, d)
            files = {}
            for b, q in zip(infos, c['dds']):
                if b[0]['data'] is not None:
                    files[os.path.normpath(os.path.join(sub, stem + b[0].get('name', '') + ext))] = (b, q)
            for k, v in before.items():
                require(k in files or (k in after and after[k] == v), '%s was changed' % k)
            new = set(k for k in after if after[k] is not None) - set(before)
            require(new <= set(files), 'files %r, expected %r' % (sorted(new), sorted(files)))
            for k, (b, q) in files.items():
                require(k in after, 'no file %s' % k)
                read_grid(after[k].decode(), q, b)
            for x, k, s in zip(dicts, keep, snap):
                require(list(x) == list(k) and all(x[n] is k[n] for n in x), 'dict given was altered')
                same_snapshot(s, *[x.get(n) for n in sorted(x) if n != 'data'])
        raises(ValueError, lambda: IO.save_grid_data_to_file(dicts + [3], directory=d), 'element that is not a dict')
        for b, q in zip(infos, c['dds']):
            if q['kind'] != 'frame' and b[0]['data'] is not None:
                k = {}
                if b[4]:
                    k['row_labels'] = b[0]['row_labels']
                    if 'row_labels_label' in b[0]:
                        k['row_labels_label'] = b[0]['row_labels_label']
                df = IO.make_array_into_dataframe(b[0]['data'], column_labels=b[0].get('column_labels'), **k)
                require([str(v) for v in df.columns] == ([b[4][0]] if b[4] else []) + b[2], 'columns of frame')
                require(list(df.index) == list(range(len(b[1]))), 'index of frame')
            elif b[0]['data'] is not None:
                require(IO.make_array_into_dataframe(b[0]['data'], row_labels=[1]) is b[0]['data'], 'frame is returned')
    return len(dicts) > 1 or c['twice'] or bool(c['other'])


# ---------------------------------------------------------------- attribute text
STR = st.sampled_from(['plain', "it's", 'say "hi"', 'C:\\new\\table', 'two\nlines', '', "'", '{0}', '%s', 'é', '\\', '"""', "'''", '#not a comment', 'np.array([1])', 'None'])
ATOM = st.one_of(st.none(), st.booleans(), st.integers(-9, 10**9), VALUE, STR)
ARR = st.tuples(st.just('arr'), st.sampled_from(['float', 'int', 'bool', 'row', 'long', 'empty', 'third', 'neg']), st.integers(0, 5), VALUE)
PLN = st.tuples(st.just('pl'), st.integers(2, 4), VALUE.filter(lambda v: 1e-10 < abs(v) < 1e10))
CONT = st.recursive(st.one_of(ATOM, ARR, PLN), lambda s: st.one_of(st.tuples(st.just('list'), st.lists(s, max_size=3)), st.tuples(st.just('tuple'), st.lists(s, max_size=3)), st.tuples(st.just('dict'), st.lists(st.tuples(STR, s), max_size=2))), max_leaves=5)


def value(v):
    if not isinstance(v, (list, tuple)):
        return v
    k = v[0]
    if k == 'arr':
        _, kind, n, x = v
        if kind == 'float':
            return x * np.arange(1, n + 1)
        if kind == 'int':
            return np.arange(n + 1) - 2
        if kind == 'bool':
            return np.arange(n + 1) % 2 == 0
        if kind == 'row':
            return x * np.arange(1., 2 * n + 3).reshape(2, n + 1) / 3
        if kind == 'long':
            return np.linspace(-1, 1, 1100 + n) / 3
        if kind == 'empty':
            return np.array([])
        if kind == 'third':
            return np.array([1 / 3., x, 1e-9 * (n + 1) + 1])
        return -np.arange(1., n + 2) / 7
    if k == 'pl':
        return PolyLine(np.cumsum(np.arange(1., v[1] + 1)) / 3, v[2] * np.arange(v[1]))
    if k == 'list':
        return [value(x) for x in v[1]]
    if k == 'tuple':
        return tuple(value(x) for x in v[1])
    return {a: value(b) for a, b in v[1]}


def same(a, b):
    if type(a) != type(b):
        return False
    if isinstance(a, np.ndarray):
        return a.dtype == b.dtype and a.shape == b.shape and bool(np.all(a == b))
    if isinstance(a, PolyLine):
        return np.array_equal(a.xy, b.xy)
    if isinstance(a, dict):
        return list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b


class Obj(object):
    pass


NM = ['aa', 'bb', 'cc', 'dd', 'ee']


@CHECK.test(rec(vals=st.lists(CONT, min_size=1, max_size=4), names=st.lists(st.sampled_from(NM), min_size=1, max_size=5, unique=True), bottom=st.booleans(), prefix=st.sampled_from(['np.', 'np.', 'numpy.', None]), opts=st.sampled_from([None, {'precision': 2}, {'threshold': 3}, {'suppress': True}, {'linewidth': 20}])), quick=1200, thorough=25000)
def attribute_text(c):
    """string_of_object_attributes recreates every value; numpy printing is left as it was"""
    o = Obj()
    vals = dict(zip(NM, [value(v) for v in c['vals']]))
    for k, v in vals.items():
        setattr(o, k, v)
    kw = {}
    if not c['bottom']:
        kw['none_at_bottom'] = False
    if c['prefix'] != 'np.':
        kw['numpy_array_prefix'] = c['prefix']
    old = np.get_printoptions()
    try:
        if c['opts']:
            np.set_printoptions(**c['opts'])
        probe = [np.arange(7) / 3e5, np.array([1e-9, 1])]
        before = [str(probe), repr(probe[0]), str(probe[1]), np.get_printoptions()]
        text = IO.string_of_object_attributes(o, c['names'], **kw)
        after = [str(probe), repr(probe[0]), str(probe[1]), np.get_printoptions()]
        require(before == after, 'numpy printing was changed')
        if c['prefix'] == 'np.' and c['bottom']:
            p = IO.PrefixNumpyArrayString('abc.')
            p.turn_on()
            on = str(probe[0])
            p.turn_off()
            require(on == 'abc.' + before[1] and str(probe[0]) == str(probe[0]) and [str(probe), repr(probe[0]), str(probe[1]), np.get_printoptions()] == before, 'PrefixNumpyArrayString')
    finally:
        np.set_printoptions(**old)
    if c['prefix'] is None:
        ns = {'array': np.array, 'PolyLine': PolyLine, 'np': np}
        exec(text, ns)
    else:
        ns = vars(IO.make_module_from_text(text, IO.SyntaxChecker(['ast', 'builtin', 'numpy', 'PolyLine'])))
    for n in c['names']:
        require(n in ns and same(ns[n], vals.get(n)), lambda: '%s reads back as %r, was %r\n%s' % (n, ns.get(n), vals.get(n), text[:500]))
    order = [l.split(' = ')[0] for l in text.split('\n') if l.split(' = ')[0] in NM and ' = ' in l]
    want = c['names']
    if c['bottom']:
        want = [n for n in want if vals.get(n) is not None] + [n for n in want if vals.get(n) is None]
    if not any('\n' in repr(v) for v in vals.values()):
        require(order == want, 'order %r, expected %r' % (order, want))
    return any(isinstance(v, (list, tuple, dict, PolyLine, np.ndarray)) for v in vals.values())


# ---------------------------------------------------------------- whole objects
def text_of(v):
    if isinstance(v, PolyLine):
        return 'PolyLine(%r, %r)' % (v.x.tolist(), v.y.tolist())
    if isinstance(v, np.ndarray):
        return 'np.array(%r, dtype=%s)' % (v.tolist(), {'f': 'float', 'i': 'int', 'b': 'bool'}[v.dtype.kind])
    if isinstance(v, dict):
        return '{%s}' % ', '.join('%r: %s' % (k, text_of(x)) for k, x in v.items())
    if isinstance(v, list):
        return '[%s]' % ', '.join(map(text_of, v))
    if isinstance(v, tuple):
        return '(%s)' % ''.join(text_of(x) + ', ' for x in v)
    return repr(v)


SAVE = rec(vals=st.lists(CONT, min_size=1, max_size=4), prefix=maybe(st.sampled_from(['run', 'a.b', 'out', 'z('])), over=st.booleans(), cd=st.booleans(), ext=maybe(st.sampled_from(['.txt', '.inp'])), dext=maybe(st.sampled_from(['.dat'])), data=st.booleans(), grid=maybe(st.lists(VALUE, min_size=2, max_size=4)), nfig=st.sampled_from([None, None, None, 0, 1, 1, 2, 'single']), fext=maybe(st.sampled_from(['.png', '.svg'])), flabel=st.sampled_from(['', 'fig a', 'u']))


@CHECK.test(rec(saves=st.lists(SAVE, min_size=1, max_size=3), sub=st.booleans()), quick=160, thorough=3000)
def objects(c):
    """several objects saved one after the other into one directory"""
    class Prog(IO.InputFileLoaderCheckerSaver):
        _attributes = list(NM)
    with scratch() as d:
        base = os.path.join(d, 'res') if c['sub'] else d
        if c['sub']:
            os.mkdir(base)
        for s in c['saves']:
            before = tree(base)
            vals = dict(zip(NM, [value(v) for v in s['vals']]))
            if any(isinstance(v, np.ndarray) and v.size > 500 for v in vals.values()):
                label('long array')
            allv = dict(vals)
            if c['sub']:
                allv['directory'] = base
            for k, v in (('prefix', s['prefix']), ('input_ext', s['ext']), ('data_ext', s['dext'])):
                if v is not None:
                    allv[k] = v
            if s['over']:
                allv['overwrite'] = True
            if not s['cd']:
                allv['create_directory'] = False
            if s['data']:
                allv['save_data_to_file'] = True
            if s['nfig'] is not None:
                allv['save_figures_to_file'] = True
                allv['figure_ext'] = s['fext'] or '.png'
            text = '# input\n' + ''.join('%s = %s\n' % (k, text_of(v)) for k, v in allv.items())
            o = Prog(text)
            g = None
            if s['grid']:
                g = {'name': '_grid', 'data': np.array([s['grid'], s['grid']]), 'header': 'h'}
                o._grid_data_dicts = [g]
            figs = []
            try:
                if s['nfig'] is not None:
                    for i in range(1 if s['nfig'] == 'single' else s['nfig']):
                        f = plt.figure(figsize=(1, 1))
                        f.set_label(s['flabel'] + (str(i) if s['flabel'] else ''))
                        figs.append(f)
                    o._figures = figs[0] if s['nfig'] == 'single' else figs
                o._save_data()
                o._save_figures()
            finally:
                plt.close('all')
            after = tree(base)
            pre = s['prefix'] or 'out'
            num = [0]
            for k in before:
                nm = k.rstrip('/').split(os.sep)[0]
                if nm.startswith(pre) and nm[len(pre):len(pre) + 1].isdigit():
                    r = nm[len(pre):]
                    num.append(int(r[:len(r) - len(r.lstrip('0123456789'))]))
            n = max(num) + (0 if s['over'] and len(num) > 1 else 1)
            stem = pre + str(n).zfill(4)
            where = (stem + os.sep if s['cd'] else '') + stem
            files = set()
            ie = s['ext'] or '.py'
            if s['data']:
                files |= {where + '_input_original' + ie, where + '_input_parsed' + ie}
                if g:
                    files.add(where + '_grid' + (s['dext'] or '.csv'))
            for i, f in enumerate(figs):
                files.add(where + '_' + (f.get_label() or 'Figure_%02d' % i) + allv['figure_ext'])
            new = set(k for k in after if k not in before and not k.endswith('/'))
            require(new <= files and files <= set(after), lambda: 'files %r, expected %r\n%s' % (sorted(new), sorted(files), text))
            for k in before:
                require(k in after and (k in files or after[k] == before[k]), 'file %s of an earlier object was changed' % k)
            if not s['over']:
                require(not files & set(before), 'overwrote %r' % (files & set(before)))
            if s['data']:
                require(after[where + '_input_original' + ie].decode() == text, 'original input')
                back = Prog(after[where + '_input_parsed' + ie].decode())
                for k in Prog._attributes:
                    require(same(getattr(back, k), getattr(o, k)), lambda: 'parsed input gives %s = %r, was %r' % (k, getattr(back, k), getattr(o, k)))
                for k, v in vals.items():
                    require(same(getattr(back, k), v), 'value of %s' % k)
                if g:
                    read_grid(after[where + '_grid' + (s['dext'] or '.csv')].decode(), None, (g, g['data'], [str(i) for i in range(len(s['grid']))], ['0', '1'], None))
            label('saved' if files else 'nothing asked')
    return len(c['saves']) > 1


VR = """H = %(H)r
drn = %(drn)d
dTv = %(dTv)r
neig = 6
mvref = 2.0
mv = PolyLine([0, %(z)r, %(z)r, 1], [%(m)r, 2, .5, 1])
kv = PolyLine([0, 1], [1, %(k)r])
dTh = %(dTh)r
kh = PolyLine([0, 1], [1, 1])
et = PolyLine([0, 1], [1, 1.5])
surcharge_vs_depth = [PolyLine([0, 1], [1, %(k)r]), PolyLine([0, 1], [1, 1])]
surcharge_vs_time = [PolyLine([0, 0, %(t)r], [0, 1, 1]), PolyLine([0, %(t)r, 8], [0, %(m)r, 1])]
surcharge_omega_phase = [(%(m)r, 0.3), None]
ppress_z = np.linspace(0, 1, 7)
avg_ppress_z_pairs = [[0, 1], [0.2, %(z)r / 3]]
settlement_z_pairs = [[0, 1]]
tvals = np.linspace(0.01, 3, 9)
author = "it's me"
save_data_to_file = True
"""


@CHECK.test(rec(H=num(.5, 3), drn=st.integers(0, 1), dTv=num(.01, 2), dTh=num(.1, 3), z=num(.1, .9), m=num(.3, 3), k=num(.3, 3), t=num(.1, 2)), quick=24, thorough=400)
def rerun(c):
    """the parsed input saved by a real analysis gives the same analysis"""
    from geotecha.speccon.speccon1d_vr import Speccon1dVR
    with scratch() as d:
        a = Speccon1dVR(VR % c)
        a.make_all()
        with open(os.path.join(d, 'speccon1dvr_0001', 'speccon1dvr_0001_input_parsed.py')) as f:
            b = Speccon1dVR(f)
        b.make_all()
        for nm in ('por', 'avp', 'set'):
            require(np.array_equal(getattr(a, nm), getattr(b, nm)), '%s of the saved input differs' % nm)
        t = tree(d)
        for k in list(t):
            if k.startswith('speccon1dvr_0001') and k.endswith('.csv'):
                require(t[k].split(b'idex')[1:] == t[k.replace('_0001', '_0002')].split(b'idex')[1:], 'file %s differs' % k)
    return True
