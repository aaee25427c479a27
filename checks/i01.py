"""I01: generated programs, with and without constructs that are not white-listed."""
from harness import *
import builtins
import geotecha.inputoutput.inputoutput as IO
from geotecha.inputoutput.inputoutput import SyntaxChecker, make_module_from_text
from geotecha.piecewise.piecewise_linear_1d import PolyLine

CHECK = Check('I01', rule='the text holds a nested or compound construct and is run, or it holds a forbidden construct below the top level',
              assumptions=['what the white-listed functions themselves can do is outside the property (e.g. np.load, locals)'])
ALLOW = ['ast', 'builtin', 'numpy', 'PolyLine']

# ---------------------------------------------------------------- typed expressions as text
NUM = st.one_of(st.integers(-9, 9).map(str), st.sampled_from(['a', 'e', '2.5', '-0.25', 'np.pi', 'h', "d['k']", 'b[0]', 'c[-1]', '0', 'True']))


def ext(n):
    two = st.tuples(n, n)
    lst = st.one_of(st.lists(n, min_size=1, max_size=3).map(lambda v: '[%s]' % ', '.join(v)), st.sampled_from(['b', 'list(range(4))', 'sorted(b)', 'c.tolist()', '[1] + b', 'b[::-1]', '[0]*3', 'list(d.values())']))
    lst = st.one_of(lst, st.tuples(n, lst).map(lambda v: '[(%s)*v for v in %s]' % v), st.tuples(lst, n).map(lambda v: '[v + w for v in %s for w in [1, 2] if v > %s]' % v),
                    st.tuples(n, lst).map(lambda v: 'list(map(lambda z: z - (%s), %s))' % v), lst.map(lambda v: 'sorted(%s, key=lambda q, r=2: q**r)' % v), lst.map(lambda v: 'sorted({q for q in %s})' % v),
                    lst.map(lambda v: 'list(reversed(%s))' % v), lst.map(lambda v: '[x[1] for x in sorted(zip(%s, range(9)))]' % v), lst.map(lambda v: '[v for i, v in enumerate(%s) if i %% 2 == 0]' % v))
    arr = st.one_of(lst.map(lambda v: 'np.array(%s, dtype=float)' % v), st.sampled_from(['c', 'np.linspace(0, 1, 3)', 'np.zeros(3)', 'c[1:]', 'np.arange(4.)']))
    arr = st.one_of(arr, st.tuples(arr, n).map(lambda v: '%s*(%s)' % v), arr.map(lambda v: 'np.cumsum(%s)' % v), arr.map(lambda v: 'np.where(%s > 0, 1., -1.)' % v), arr.map(lambda v: '(%s).copy()' % v))
    boo = st.one_of(two.map(lambda v: '((%s) < (%s))' % v), two.map(lambda v: '((%s) >= 1 and not (%s) == 2)' % v), st.tuples(n, lst).map(lambda v: '((%s) in %s)' % v), lst.map(lambda v: 'any(%s)' % v),
                    n.map(lambda v: 'isinstance(%s, float)' % v), n.map(lambda v: '((%s) is not None)' % v), two.map(lambda v: '(0 < (%s) <= (%s))' % v))
    return st.one_of(st.tuples(n, st.sampled_from(['+', '-', '*', '/', '//', '%']), n).map(lambda v: '((%s) %s (%s))' % v), n.map(lambda v: '(-(%s))' % v), n.map(lambda v: 'abs(%s)' % v),
                     two.map(lambda v: 'min(%s, %s)' % v), n.map(lambda v: 'round(float(%s), 3)' % v), lst.map(lambda v: 'len(%s)' % v), lst.map(lambda v: 'sum(%s)' % v), lst.map(lambda v: '%s[0]' % v),
                     st.tuples(boo, n, n).map(lambda v: '((%s) if (%s) else (%s))' % (v[1], v[0], v[2])), n.map(lambda v: 'np.sin(%s)' % v), arr.map(lambda v: '(%s).sum()' % v), arr.map(lambda v: '(%s).max()' % v),
                     n.map(lambda v: "len('{0:.3f}'.format(%s).strip().split('.'))" % v), lst.map(lambda v: 'sum(u for u in %s)' % v), lst.map(lambda v: 'len({k: 2*k for k in %s})' % v), arr.map(lambda v: 'float(np.dot(%s, 1.).sum())' % v),
                     lst.map(lambda v: 'PolyLine(%s, %s).y.sum()' % ('sorted(' + v + ')', v)), n.map(lambda v: 'int(%s) & 3 | 1' % v), n.map(lambda v: 'dict(k=%s)["k"]' % v), two.map(lambda v: 'max(*[%s, %s])' % v))


EXPR = st.recursive(NUM, ext, max_leaves=6)
PRE = "a = 3\nb = [1, 2.5, -4]\nc = np.array([0.5, -1, 2])\nd = {'k': 2}\ne = 1e-3\nh = None or 4\n"


def ind(s):
    return ''.join('    ' + l + '\n' for l in s.rstrip('\n').split('\n'))


def sext(s):
    many = st.lists(s, min_size=1, max_size=3).map(lambda v: ''.join(v))
    return st.one_of(st.tuples(EXPR, many, many).map(lambda v: 'if %s:\n%selse:\n%s' % (v[0], ind(v[1]), ind(v[2]))), st.tuples(many).map(lambda v: 'for i in range(3):\n%s    if i == 1:\n        break\n' % ind(v[0])),
                     st.tuples(many).map(lambda v: 'wl = [1, 2, 3]\nwhile wl:\n    wl.pop()\n%s' % ind(v[0])), st.tuples(EXPR, many).map(lambda v: 'def func(p1, p2=%s):\n%s    return p1 + p2\n' % (v[0], ind(v[1]))),
                     st.tuples(many, many).map(lambda v: 'try:\n%sfinally:\n%s' % (ind(v[0]), ind(v[1]))), st.tuples(many).map(lambda v: 'for j, k in enumerate(b[:4]):\n    if j == 1:\n        continue\n%s' % ind(v[0])))


SIMPLE = st.one_of(st.tuples(st.sampled_from(['a', 'e', 'f', 'g', 'res']), EXPR).map(lambda v: '%s = %s\n' % v), st.tuples(st.sampled_from(['a', 'e']), st.sampled_from(['+=', '-=', '*=']), EXPR).map(lambda v: '%s %s %s\n' % v),
                   EXPR.map(lambda v: 'm, (o, t) = %s, (1, 2)\n' % v), EXPR.map(lambda v: "d['k'] = %s\n" % v), EXPR.map(lambda v: 'b.append(%s)\n' % v), EXPR.map(lambda v: 'c[0] = %s\n' % v), st.sampled_from(['pass\n', 'tmp = 1\ndel tmp\n']), EXPR.map(lambda v: '%s\n' % v), EXPR.map(lambda v: 'assert (%s) is not None\n' % v),
                   EXPR.map(lambda v: 'lst = [*b, %s]\n' % v), EXPR.map(lambda v: 'lam = lambda x1, *args, **kw: %s\n' % v))
STMT = st.recursive(SIMPLE, sext, max_leaves=4)
PROG = st.lists(STMT, min_size=1, max_size=4).map(''.join)


def same(a, b):
    if type(a) != type(b):
        return False
    if callable(a):
        return True
    if isinstance(a, np.ndarray):
        return a.shape == b.shape and np.array_equal(a, b, equal_nan=True)
    if isinstance(a, dict):
        return list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b or (a != a and b != b)


def run(fn):
    with np.errstate(all='ignore'):
        try:
            return fn(), None
        except Exception as ex:
            return None, ex


def public(ns):
    return {k: v for k, v in ns.items() if not k.startswith('__')}


@CHECK.test(rec(prog=PROG, given=st.booleans(), verbose=st.booleans()), quick=1500, thorough=20000)
def accepted(c):
    """programs of allowed parts run and give what Python gives"""
    text = PRE + c['prog']
    ns = {'np': np, 'PolyLine': PolyLine}
    _, ex = run(lambda: exec(compile(text, 'x', 'exec'), ns))
    ns = public(ns)
    chk = SyntaxChecker(ALLOW)
    m, ex2 = run(lambda: make_module_from_text(text, chk))
    require(not isinstance(ex2, SyntaxError), lambda: 'rejected: %s\n%s' % (ex2, text))
    require(type(ex) == type(ex2), lambda: '%r instead of %r\n%s' % (ex2, ex, text))
    if ex is not None:
        label('raises ' + type(ex).__name__)
        return False
    got = vars(m)
    for k, v in ns.items():
        if k not in ('np', 'PolyLine'):
            require(k in got and same(got[k], v), lambda: '%s is %r, Python gives %r\n%s' % (k, got.get(k), v, text))
    extra = set(public(got)) - set(ns) - set(chk.allowed_functions)
    require(not extra, 'extra names %r' % extra)
    # no checker: plain Python
    m2, ex3 = run(lambda: make_module_from_text('import numpy as np\nfrom geotecha.piecewise.piecewise_linear_1d import PolyLine\n' + text))
    require(ex3 is None and all(same(vars(m2)[k], v) for k, v in ns.items() if k not in ('np', 'PolyLine')), 'without checker')
    label('run')
    return any(w in c['prog'] for w in ('if ', 'for ', 'while ', 'lambda', 'def '))


# ---------------------------------------------------------------- forbidden constructs
DENIED = '__import__ eval exec open getattr setattr delattr globals vars dir callable classmethod staticmethod property object memoryview __build_class__ breakpoint exit quit help __loader__ __builtins__ __spec__ __name__ __debug__'.split()
BADNAME = DENIED + ['os', 'sys', 'unknown_name', 'math_', 'self', 'IO', 'ast', 'imp', 'canary', 'undefined1', 'numpy_', 'Exception', 'BaseException']
BADATTR = '__class__ __dict__ __subclasses__ __globals__ __code__ __builtins__ __mro__ __bases__ __init__ __reduce__ __getattribute__ gi_frame f_globals tb_frame func_globals ctypes system popen sys os core lib linalg random _private f_back cr_frame __call__ memmap'.split()
BADEXPR = (['[].%s' % v for v in BADATTR] + ['np.%s' % v for v in BADATTR] + ["''.join([]).%s" % v for v in BADATTR[:12]] + BADNAME[:] + ['%s()' % v for v in BADNAME] + ["%s('1')" % v for v in DENIED]
           + ["f'{a}'", '(w := 3)', 'a(3)', 'b()', 'c @ c', 'x0(1)', "func1()", "canary()", '(lambda v: v).__globals__', '(yield from [])' if 0 else 'undefined2[0]', "np.lib.npyio", "np.core", "np.os", "''.__class__.__mro__"])
# assigning a name (perhaps in code that never runs) and then using what was there before
LAUNDER = ['{n} = {n}\n', 'if False:\n    {n} = 1\n', 'for {n} in []:\n    pass\n', '[0 for {n} in []]\n', 'lam = lambda {n}: 1\n', 'def fun({n}):\n    pass\n', '{n}, z = 1, 2\n', 'while False:\n    {n} = 0\n', '[{n}, z] = [1, 2]\n']
BADSTMT = ['import os\n', 'import numpy\n', 'from os import path\n', 'from os.path import *\n', 'class K:\n    pass\n', 'class K(list):\n    a = 1\n', 'async def co():\n    pass\n', 'a: int = 3\n', 'match a:\n    case 3:\n        pass\n',
           'with open("x"):\n    pass\n', 'try:\n    a = 1\nexcept Exception:\n    pass\n', '@eval\ndef f():\n    pass\n', 'def f(q: eval):\n    pass\n', '__builtins__ |= {}\n', 'import os as np\n', 'from numpy import *\n', 'nonlocal_ = eval\n', 'a @= c\n', 'type X = int\n',
           'def g():\n    nonlocal_1()\n', 'np.core = 3\n', 'a.__class__ = 3\n', "__builtins__['abs'] = 1\n", 'global zz\nimport re\n', 'raise SystemExit\n', 'raise Exception\n']
WRAP = ['x = {X}\n', 'x = [1, [{X}]]\n', "x = {{'k': {X}}}\n", 'x = (lambda: {X})\n', 'x = abs({X})\n', 'x = 1 if True else {X}\n', 'x = [v for v in [{X}]]\n', 'x = [{X} for v in []]\n', 'x = np.sin({X})\n', 'def f(q={X}):\n    pass\n', 'x = max(*{X})\n', 'x = sorted([1], key={X})\n',
        'x = b[{X}]\n', 'x = b[0:{X}]\n', 'if {X}:\n    pass\n', 'for v in {X}:\n    pass\n', 'while False and {X}:\n    pass\n', 'def f():\n    return {X}\n', 'a += {X}\n', 'd[{X}] = 2\n', 'assert {X}\n', 'x = a < 2 < ({X})\n', 'x = not ({X})\n', 'x = -({X})\n', 'x = dict(k={X})\n', '{X}\n',
        'x = "".join([str({X})])\n', 'x = {{({X}), 2}}\n', 'x = (v for v in b if {X})\n', 'x = False and ({X})\n', 'x = ({X}).copy\n', 'x = [({X})][0]\n', 'x = dict(**{X})\n', 'with {X}:\n    pass\n', 'raise {X}\n', 'x = (1, *({X}))\n']
BLOCK = ['{S}', 'if False:\n{I}', 'for i in b:\n{I}', 'def func():\n{I}', 'try:\n    pass\nfinally:\n{I}', 'if a:\n    pass\nelse:\n{I}', 'while False:\n    for j in b:\n        if j:\n{III}', 'for i in []:\n    pass\nelse:\n{I}', 'def outer():\n    def inner(a1):\n{II}', 'if True:\n    pass\nelif a:\n{I}']
ONE = st.one_of(st.tuples(st.sampled_from(WRAP), st.sampled_from(BADEXPR)).map(lambda v: v[0].format(X=v[1])), st.sampled_from(BADSTMT),
                st.tuples(st.sampled_from(LAUNDER), st.sampled_from(WRAP), st.sampled_from(DENIED[:-1] + ['canary']), st.sampled_from(['[{n}][0]', '{n}', '(lambda: {n})()', '[q for q in ({n},)]', "{{'k': {n}}}['k']"])).filter(lambda v: v[2] != '__debug__').map(lambda v: v[0].format(n=v[2]) + v[1].format(X=v[3].format(n=v[2]))))


@CHECK.test(rec(before=maybe(PROG), bad=ONE, block=st.lists(st.sampled_from(BLOCK), max_size=2), after=maybe(PROG), verbose=st.booleans()), quick=3000, thorough=40000)
def rejected(c):
    """any forbidden construct anywhere: SyntaxError and nothing has been run"""
    s = c['bad']
    for b in c['block']:
        i = ind(s)
        s = b.format(S=s, I=i, II=ind(i), III=ind(ind(i)))
    text = 'mark()\n' + PRE + (c['before'] or '') + s + (c['after'] or '')
    try:
        compile(text, 'x', 'exec')
        valid = True
    except SyntaxError:
        valid = False
    ran = []
    chk = SyntaxChecker(ALLOW)
    chk.allowed_functions['mark'] = lambda: ran.append(1)
    builtins.canary = lambda *k: ran.append('canary')
    try:
        try:
            make_module_from_text(text, chk)
        except SyntaxError:
            require(not ran, lambda: 'ran before it was rejected\n' + text)
        except Exception as ex:
            fail('accepted, then failed with %r\n%s' % (ex, text))
        else:
            fail('accepted:\n%s' % text)
    finally:
        del builtins.canary
    if not valid:
        label('not Python')
        return False
    label('nested' if c['block'] else 'top level')
    return bool(c['block'])


GOOD = 'abs all any ascii bin bool bytearray bytes chr complex dict divmod enumerate filter float format frozenset hex id int isinstance issubclass iter len list map max min next oct ord pow print range repr reversed round set slice sorted str sum tuple type zip'.split()
NPGOOD = 'array linspace arange zeros ones cos sin tan exp log log10 sqrt pi cumsum sum mean interp where hstack vstack concatenate diff dot max min abs tile repeat polyfit trapz arctan2 searchsorted reshape copy tolist'.split()


@CHECK.test(rec(subset=st.lists(st.booleans(), min_size=4, max_size=4), name=st.one_of(st.sampled_from(GOOD + DENIED + BADNAME + NPGOOD + ['np', 'numpy', 'PolyLine', 'True', 'None', 'math', 'x1_x2_y1_y2']), st.sampled_from(sorted(n for n in dir(builtins) if not n.startswith('_'))), st.sampled_from(sorted(n for n in dir(np) if n.isidentifier()))),
                form=st.integers(0, 4), extra=st.sampled_from(['none', 'function', 'attribute', 'node', 'drop']), node=st.sampled_from(['BinOp', 'List', 'For', 'If', 'Constant', 'Add', 'comprehension', 'Subscript', 'Assign', 'Name', 'Call', 'Attribute', 'Lambda', 'ListComp'])), quick=2000, thorough=40000)
def lists(c):
    """a name or attribute is accepted iff it is listed; dropping a node type forbids it"""
    parts = [a for a, b in zip(ALLOW, c['subset']) if b]
    chk = SyntaxChecker(parts)
    nm = c['name']
    has = lambda v: v in parts
    if nm in ('True', 'False', 'None', '__debug__') and c['form'] in (1, 2, 3):
        return False
    if has('builtin'):
        for g in GOOD:
            require(chk.allowed_functions.get(g) is getattr(builtins, g), '%s is not allowed' % g)
    if has('numpy'):
        require(chk.allowed_functions.get('np') is np and chk.allowed_functions.get('numpy') is np, 'numpy')
    if has('PolyLine'):
        require(chk.allowed_functions.get('PolyLine') is PolyLine, 'PolyLine')
    for dn in DENIED:
        require(dn not in chk.allowed_functions and dn not in chk.allowed_attributes, '%s is allowed' % dn)
    for dn in BADATTR:
        require(dn not in chk.allowed_attributes, 'attribute %s is allowed' % dn)
    if c['extra'] == 'function':
        chk.allowed_functions['math'] = math
        chk.allowed_attributes.add('tau')
    fun, att = set(chk.allowed_functions), set(chk.allowed_attributes)
    if c['extra'] == 'function':
        text, ok = 'x = math.tau\n', True
    elif c['form'] == 0:
        text, ok = 'x = [%s]\n' % nm, nm in fun or nm in att or nm in ('True', 'False', 'None')
    elif c['form'] == 1:
        text, ok = 'x = (lambda: %s(1))\n' % nm, nm in fun
    elif c['form'] == 2:
        text, ok = 'x = (lambda: [].%s)\n' % nm, nm in fun or nm in att
    elif c['form'] == 3:
        text, ok = 'x = 0\ny = lambda: x.%s(3)\n' % nm, nm in fun or nm in att
    else:
        text, ok = 'y = 3\nx = [y, y]\n', True
    if c['extra'] in ('node', 'drop'):
        chk.allowed_attributes.add('append')
        uses = {'BinOp': 'x = 1 + 2', 'List': 'x = [1]', 'For': 'for x in (1, 2):\n    pass', 'If': 'if 1:\n    x = 2', 'Constant': 'x = 1', 'Add': 'x = 1 + 2', 'comprehension': 'x = [1 for y in (1, 2)]', 'Subscript': 'x = (1, 2)[0]', 'Assign': 'x = 3', 'Name': 'x = 3', 'Call': 'x = (lambda: 1)()', 'Attribute': 'x = [].append', 'Lambda': 'x = lambda: 1', 'ListComp': 'x = [y for y in (1, 2)]'}
        text, ok = uses[c['node']] + '\n', c['extra'] == 'node'
        if c['extra'] == 'drop':
            chk.allowed_node_types.pop(c['node'], None)
    ok = ok and has('ast')
    try:
        m = make_module_from_text(text, chk)
        got = True
    except SyntaxError:
        got = False
    except Exception as ex:
        require(c['form'] == 0 and isinstance(ex, NameError), lambda: '%r from %s' % (ex, text))
        got = True
    if got and not ok:
        fail('accepted with %s: %s' % (parts, text))
    if ok and not got:
        fail('rejected with %s: %s' % (parts, text))
    raises(AttributeError, lambda: SyntaxChecker(parts + ['nothing']), 'unknown allow name')
    raises(TypeError, lambda: make_module_from_text('a=1', 'checker'), 'checker of wrong type')
    label('ok' if ok else 'not ok')
    return len(parts) in (2, 3)


@CHECK.test(rec(texts=st.lists(st.tuples(st.sampled_from('uvwz'), st.sampled_from('uvwz'), st.booleans()), min_size=2, max_size=5)), quick=400, thorough=6000)
def history(c):
    """one checker used for several texts: names assigned in another text, or later in the text, are unknown"""
    chk = SyntaxChecker(ALLOW)
    ran = []
    chk.allowed_functions['mark'] = lambda: ran.append(1)
    hit = False
    for new, use, order in c['texts']:
        del ran[:]
        text = 'mark()\n' + ('%s = 1\nq = %s\n' % (new, use) if order else 'q = %s\n%s = 1\n' % (use, new))
        ok = order and new == use
        try:
            m = make_module_from_text(text, chk)
            got = True
        except SyntaxError:
            got = False
        except NameError:
            got = True
        require(got == ok, lambda: 'text %r was %s' % (text, 'accepted' if got else 'rejected'))
        require(len(ran) == (1 if ok else 0), 'ran %d times' % len(ran))
        if ok:
            require(m.q == 1, 'value')
        hit = hit or not ok
    return hit
