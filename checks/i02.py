"""I02: attribute copying, defaulting and validation against a direct model of the rules."""
from harness import *
import io, textwrap
import geotecha.inputoutput.inputoutput as IO
from geotecha.piecewise.piecewise_linear_1d import PolyLine

CHECK = Check('I02', rule='at least two rules or groups apply, or a value is missing and defaulted',
              assumptions=['attribute names differ from those of the white-listed functions', 'lists of PolyLines are not empty'])
NAMES = ['aa', 'bb', 'cc', 'dd', 'ee']
SCALAR = st.one_of(st.none(), st.integers(-9, 9), num(-2, 2), st.booleans(), st.sampled_from(["plain", "it's", 'say "hi"', 'C:\\new\\table', 'two\nlines', '', "'", '{0}', '%s', 'é']), st.lists(st.integers(0, 3), max_size=3))
NAME = st.sampled_from(NAMES)
SUB = st.lists(NAME, max_size=4)
USUB = st.lists(NAME, max_size=5, unique=True)


class Obj(object):
    pass


def make(d, cls=Obj):
    o = cls()
    for k, v in d.items():
        setattr(o, k, v)
    return o


def eq(a, b):
    if isinstance(a, PolyLine):
        return isinstance(b, PolyLine) and np.array_equal(a.xy, b.xy)
    if isinstance(a, np.ndarray):
        return isinstance(b, np.ndarray) and a.dtype == b.dtype and np.array_equal(a, b)
    if isinstance(a, (list, tuple)):
        return type(a) == type(b) and len(a) == len(b) and all(eq(x, y) for x, y in zip(a, b))
    return type(a) == type(b) and a == b


def same(o, want, what):
    got = vars(o)
    require(set(got) == set(want), lambda: '%s: attributes %r, expected %r' % (what, sorted(got), sorted(want)))
    for k in want:
        require(eq(got[k], want[k]), lambda: '%s: %s is %r, expected %r' % (what, k, got[k], want[k]))


D = st.dictionaries(NAME, SCALAR, max_size=5)


@CHECK.test(rec(src=D, dst=D, names=SUB, defaults=D, nf=st.sampled_from([None, 0, 1000, 'x', False]), form=st.integers(0, 3), dn=st.sampled_from([None, '_attribute_defaults', 'dflt']), on=st.sampled_from(['self', 'obj', 'a_b'])), quick=1500, thorough=30000)
def copying(c):
    """copy from object or text, initialise, generated initialisation code"""
    src, dst, de, nf = c['src'], c['dst'], c['defaults'], c['nf']
    snap = snapshot(src, dst, de, c['names'])
    want = dict(dst)
    for n in c['names']:
        want[n] = src[n] if n in src else de[n] if n in de else nf
    kw = {} if nf is None else {'not_found_value': nf}
    to = make(dst)
    if c['form'] == 0:
        fr = make(src)
        IO.copy_attributes_between_objects(fr, to, c['names'], de, **kw)
        same(fr, src, 'source')
    else:
        text = ''.join('%s = %r\n' % i for i in src.items())
        if c['form'] == 1:
            kw['syntax_checker'] = IO.SyntaxChecker(['ast'])
        if c['form'] == 2:
            text = 'import math\n' + text
        IO.copy_attributes_from_text_to_object(text, to, c['names'], de, **kw)
    same(to, want, 'copy')
    same_snapshot(snap, src, dst, de, c['names'])
    if c['form'] == 0 and not c['names']:
        IO.copy_attributes_between_objects(fr, to)
        same(to, dst, 'nothing to copy')
    # initialise
    kw.pop('syntax_checker', None)
    want = dict(dst)
    for n in c['names']:
        want[n] = de.get(n, nf)
    to = make(dst)
    IO.initialize_objects_attributes(to, c['names'], de, **kw)
    same(to, want, 'initialise')
    # generated code does the same
    to = make(dst)
    k2 = dict(kw, defaults_name=c['dn'])
    if c['on'] != 'self':
        k2['object_name'] = c['on']
    if c['dn'] is not None:
        setattr(to, c['dn'], de)
        want[c['dn']] = de
    if c['dn'] == '_attribute_defaults':
        k2.pop('defaults_name')
    code = IO.code_for_explicit_attribute_initialization(c['names'], de, **k2)
    exec(code, {c['on']: to})
    same(to, want, 'generated code')
    same_snapshot(snap, src, dst, de, c['names'])
    label('missing' if any(n not in src for n in c['names']) else 'all found')
    return any(n not in src for n in c['names'])


# ---------------------------------------------------------------- values with lengths and PolyLines
VAL = st.one_of(st.just(['none']), st.tuples(st.just('int'), st.integers(0, 9)), st.tuples(st.just('list'), st.integers(0, 3)), st.tuples(st.just('array'), st.integers(0, 3)), st.tuples(st.just('tuple'), st.integers(0, 3)), st.tuples(st.just('str'), st.integers(0, 3)),
                st.tuples(st.just('nones'), st.integers(0, 3)))
LIM = st.tuples(st.integers(0, 2), st.integers(0, 1))
PVAL = st.one_of(st.just(['none']), st.tuples(st.just('pl'), LIM), st.tuples(st.just('pls'), st.lists(LIM, min_size=1, max_size=3)), st.tuples(st.just('pl'), st.just((0, 0))), st.tuples(st.just('pls'), st.just([(0, 0), (0, 0)])))


def pl(l):
    a, b = l
    n = 2 + (a + b) % 2
    return PolyLine(list(np.linspace(a * .5, 3 + b, n)), list(range(n)))


def val(v):
    if v[0] == 'none':
        return None
    k, n = v
    return (n if k == 'int' else list(range(n)) if k == 'list' else np.arange(n) * 1. if k == 'array' else tuple(range(n)) if k == 'tuple' else 'x' * n if k == 'str' else [None] * n if k == 'nones' else pl(n) if k == 'pl' else [pl(l) for l in n])


def m_combo(o, zero, one, imp):
    for g in zero:
        k = sum(o[n] is None for n in g)
        if 0 < k < len(g):
            raise ValueError
    for g in one:
        if all(o[n] is None for n in g):
            raise ValueError
    for g in imp:
        if len(g) <= 1:
            raise ValueError
        if o[g[0]] is not None and any(o[n] is None for n in g[1:]):
            raise ValueError


def m_list(o, names, force):
    for n in names:
        if o[n] is not None and not isinstance(o[n], list):
            if not force:
                raise ValueError
            o[n] = [o[n]]


def m_force(o, groups, value):
    for g in groups:
        if o[g[0]] is not None:
            for n in g[1:]:
                if o[n] is None:
                    o[n] = [value] * len(o[g[0]])


def m_lim(o, groups):
    for g in groups:
        lims = set()
        for n in g:
            v = o[n]
            if v is not None:
                for p in (v if isinstance(v, list) else [v]):
                    lims.add((float(p.x[0]), float(p.x[-1])))
        if len(lims) > 1:
            raise ValueError


def m_pairs(o, pairs):
    for p in pairs:
        if len(p) > 2:
            raise ValueError
        a, b = o[p[0]], o[p[1]]
        if a is None or b is None:
            continue
        if not hasattr(a, '__len__') or not hasattr(b, '__len__'):
            raise TypeError
        if len(a) != len(b):
            raise ValueError


def judge(model, real, vals, what, partial=False):
    """model(dict) and real(object) must agree on result or error"""
    want = dict(vals)
    obj = make(vals)
    snap = snapshot(dict(vals))
    try:
        model(want)
        ex = None
    except (ValueError, TypeError) as e:
        ex = type(e)
    try:
        real(obj)
        got = None
    except (ValueError, TypeError) as e:
        got = type(e)
    require(got == ex, lambda: '%s: %s, expected %s for %r' % (what, got, ex, vals))
    if ex is None:
        same(obj, want, what)
    elif not partial:
        same(obj, vals, what + ' (raised)')
    for k, v in vals.items():   # values themselves never altered
        require(eq(v, snap[0][k]), '%s altered the value of %s' % (what, k))
    label('%s %s' % (what, 'passes' if ex is None else 'raises'))
    return ex


VALS = st.lists(VAL, min_size=5, max_size=5)
GR = st.lists(st.lists(NAME, min_size=1, max_size=3, unique=True), max_size=3)
GR0 = st.lists(st.lists(NAME, max_size=3, unique=True), max_size=2)


@CHECK.test(rec(vals=VALS, zero=GR0, one=GR, imp=st.lists(st.lists(NAME, min_size=2, max_size=3, unique=True), max_size=3), bad=maybe(st.integers(0, 1)), which=st.integers(0, 7)), quick=2000, thorough=40000)
def combinations(c):
    """zero or all, at least one, one implies others"""
    vals = {n: val(v) for n, v in zip(NAMES, c['vals'])}
    vals['other'] = [1, 2]
    imp = c['imp'] + ([NAMES[:c['bad']]] if c['bad'] is not None and c['which'] == 7 else [])
    zero, one = (c['zero'] if c['which'] != 1 else []), (c['one'] if c['which'] != 2 else [])
    kw = {}
    if zero:
        kw['zero_or_all'] = zero
    if one:
        kw['at_least_one'] = one
    if imp:
        kw['one_implies_others'] = imp
    snap = snapshot(kw)
    judge(lambda o: m_combo(o, zero, one, imp), lambda o: IO.check_attribute_combinations(o, **kw), vals, 'combinations')
    same_snapshot(snap, kw)
    return len(zero) + len(one) + len(imp) > 1


@CHECK.test(rec(vals=VALS, pv=st.lists(PVAL, min_size=5, max_size=5), names=USUB, force=st.booleans(), value=st.sampled_from([None, 0, 'v']), groups=GR, pg=GR0, pairs=st.lists(st.lists(NAME, min_size=2, max_size=2), max_size=3), three=st.integers(0, 9)), quick=2000, thorough=40000)
def lists(c):
    """lists, equal lengths, filling to equal length, x limits of PolyLines"""
    vals = {n: val(v) for n, v in zip(NAMES, c['vals'])}
    vals['other'] = 'untouched'
    judge(lambda o: m_list(o, c['names'], c['force']), lambda o: IO.check_attribute_is_list(o, c['names'], **({'force_list': True} if c['force'] else {})), vals, 'lists', partial=True)
    pairs = c['pairs'] + ([NAMES[:3]] if c['three'] == 0 else [])
    judge(lambda o: m_pairs(o, pairs), lambda o: IO.check_attribute_pairs_have_equal_length(o, pairs), vals, 'pairs')
    v2 = {n: (v if v is None or hasattr(v, '__len__') else [v]) for n, v in vals.items()}
    kw = {} if c['value'] is None else {'value': c['value']}
    judge(lambda o: m_force(o, c['groups'], c['value']), lambda o: IO.force_attribute_same_len_if_none(o, c['groups'], **kw), v2, 'same length')
    pv = {n: val(v) for n, v in zip(NAMES, c['pv'])}
    pv['other'] = None
    judge(lambda o: m_lim(o, c['pg']), lambda o: IO.check_attribute_PolyLines_have_same_x_limits(o, c['pg']), pv, 'x limits')
    return len(c['names']) + len(c['groups']) + len(pairs) + len(c['pg']) > 1


# ---------------------------------------------------------------- the loader class
COMMON = {'plot_properties': {}, 'save_data_to_file': False, 'save_figures_to_file': False, 'show_figures': False, 'prefix': 'out', 'overwrite': False, 'create_directory': True, 'data_ext': '.csv', 'input_ext': '.py', 'figure_ext': '.eps', 'author': 'unknown', 'directory': None, 'title': None}
LV = st.one_of(VAL.filter(lambda v: v[0] != 'tuple'), PVAL)
RULES = rec(zero=GR0, one=st.lists(st.lists(NAME, min_size=1, max_size=3, unique=True), max_size=1), imp=st.lists(st.lists(NAME, min_size=2, max_size=3, unique=True), max_size=1), lists=USUB, force=GR0, lim=st.lists(st.lists(st.sampled_from(['p1', 'p2', 'p3']), max_size=3, unique=True), max_size=2), pairs=st.lists(st.lists(NAME, min_size=2, max_size=2, unique=True), max_size=2))


def text_of(v):
    if isinstance(v, PolyLine):
        return 'PolyLine(%r, %r)' % (v.x.tolist(), v.y.tolist())
    if isinstance(v, np.ndarray):
        return 'np.array(%r, dtype=float)' % v.tolist()
    if isinstance(v, list):
        return '[%s]' % ', '.join(text_of(x) for x in v)
    return repr(v)


@CHECK.test(rec(vals=VALS, have=st.lists(st.booleans(), min_size=8, max_size=8), pv=st.lists(PVAL, min_size=3, max_size=3), defaults=D, common=st.dictionaries(st.sampled_from(['prefix', 'author', 'title', 'overwrite', 'data_ext', 'directory']), st.sampled_from(['p', 'q']), max_size=3), cdef=st.dictionaries(st.sampled_from(['prefix', 'author', 'title']), st.sampled_from(['r', 's']), max_size=2), rules=RULES, opt=st.lists(st.booleans(), min_size=7, max_size=7), form=st.integers(0, 2), twice=st.booleans()), quick=1500, thorough=30000)
def loader(c):
    """InputFileLoaderCheckerSaver: values, defaults and checks of an input file"""
    r, o = c['rules'], c['opt']
    force = [g for g in r['force'] if g]
    ns = {'_attributes': NAMES + ['p1', 'p2', 'p3']}
    if c['defaults'] or c['cdef']:
        ns['_attribute_defaults'] = dict(c['defaults'], **c['cdef'])
    use = {}
    for (k, v), on in zip([('_zero_or_all', r['zero']), ('_at_least_one', r['one']), ('_one_implies_others', r['imp']), ('_attributes_that_should_be_lists', r['lists']), ('_attributes_to_force_same_len', force), ('_attributes_that_should_have_same_x_limits', r['lim']), ('_attributes_that_should_have_same_len_pairs', r['pairs'])], o):
        use[k] = v if on else []
        if on:
            ns[k] = v
    cls = type('Loader', (IO.InputFileLoaderCheckerSaver,), ns)
    given = {n: val(v) for n, v, h in zip(NAMES + ['p1', 'p2', 'p3'], list(c['vals']) + list(c['pv']), c['have']) if h}
    given.update(c['common'])
    text = ''.join('%s = %s\n' % (k, text_of(v)) for k, v in given.items()) + 'unused_thing = 3\n'
    want = {n: None for n in NAMES + ['p1', 'p2', 'p3']}
    want.update(COMMON)
    want.update(c['defaults'])
    want.update(c['cdef'])
    bare = dict(want)
    want.update(given)
    snap = snapshot(c['defaults'], c['cdef'], c['rules'])

    def look(obj, want, what):
        for k, v in want.items():
            require(eq(getattr(obj, k), v), lambda: '%s: %s is %r, expected %r\n%s' % (what, k, getattr(obj, k), v, text))
        require(not hasattr(obj, 'unused_thing'), 'attribute that is not listed')
        require(isinstance(obj.version, str), 'version')
    if c['form'] == 0:
        obj = cls(text)
    elif c['form'] == 1:
        obj = cls(io.StringIO(text))
    else:
        obj = cls()
        require(obj._input_text is None, 'input text')
        want = bare
    if c['form'] < 2:
        require(obj._input_text == text, 'input text')
    look(obj, want, 'loaded')
    if c['twice']:
        look(cls(), bare, 'second object')

    def model(d):
        m_combo(d, use['_zero_or_all'], use['_at_least_one'], use['_one_implies_others'])
        m_list(d, use['_attributes_that_should_be_lists'], True)
        m_force(d, use['_attributes_to_force_same_len'], None)
        m_lim(d, use['_attributes_that_should_have_same_x_limits'])
        m_pairs(d, use['_attributes_that_should_have_same_len_pairs'])
    try:
        model(want)
        ex = None
    except (ValueError, TypeError) as e:
        ex = type(e)
    try:
        obj.check_input_attributes()
        got = None
    except (ValueError, TypeError) as e:
        got = type(e)
    require(got == ex, lambda: 'check gave %s, expected %s\n%s\n%r' % (got, ex, text, use))
    if ex is None:
        look(obj, want, 'checked')
    same_snapshot(snap, c['defaults'], c['cdef'], c['rules'])
    raises(SyntaxError, lambda: cls(text + 'import os\n'), 'forbidden input')
    label('valid' if ex is None else 'invalid')
    return sum(map(bool, use.values())) > 1
