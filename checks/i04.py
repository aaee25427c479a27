"""I04: command line processing, working directory, timed calls, text utilities."""
from harness import *
import contextlib, fnmatch, io, logging, os, shutil, signal, sys, tempfile, time, datetime, re
import sympy as sp
import geotecha.inputoutput.inputoutput as IO
import geotecha.inputoutput.timeout as TO

CHECK = Check('I04', rule='several files or directories, or a failure in one of them, or a value near a rounding limit',
              assumptions=['no directory is asked for twice', 'the function of a timed call starts within the limit (limits are at least 0.3 s away from the run time)'])


class Boom(Exception):
    pass


class Stop(BaseException):
    pass


@contextlib.contextmanager
def scratch():
    d = os.path.realpath(tempfile.mkdtemp(prefix='vparg'))
    old = os.getcwd()
    try:
        os.chdir(d)
        yield d
    finally:
        os.chdir(old)
        shutil.rmtree(d)


class Log(logging.Handler):
    def __init__(self):
        logging.Handler.__init__(self)
        self.rows = []

    def emit(self, r):
        self.rows.append((r.levelname, r.getMessage()))


NAME = st.sampled_from(['a.py', 'b.py', 'ab.py', 'inputoutput.py', 'main.py', 'c.txt', 'a.txt', 'A.py', 'x y.py', 'noext', '.hidden.py', 'a.py.bak', '[1].py'])
DIR = st.sampled_from(['.', 'p', 'q', 'p/r', 'p q'])
FILE = st.tuples(DIR, NAME, st.sampled_from(['ok', 'ok', 'ok', 'fail', 'method', 'chdir']))


@CHECK.test(rec(files=st.lists(FILE, min_size=1, max_size=7, unique_by=lambda v: v[:2]), mode=st.sampled_from(['f', 'f', 'd', 'd', 'd', 'd0', 'prompt', 'cancel', 'd only', 'p only', 'both', 'nodir', 'f and p', 'stop']), dirs=st.lists(DIR, min_size=1, max_size=3, unique=True), pattern=st.sampled_from(['*.py', '*.py', 'a*', '*.txt', '?.py', '[ab]*', 'none*', None]), ask=st.lists(st.integers(0, 9), min_size=1, max_size=4), missing=st.booleans(), opened=st.booleans(), absolute=st.booleans(), script=st.sampled_from([None, None, 'main.py', 'a.py']), methods=st.lists(st.tuples(st.integers(0, 3), st.integers(0, 3)), max_size=2), sysargv=st.booleans(), long=st.booleans(), level=st.sampled_from([logging.WARNING, logging.ERROR, logging.DEBUG])), quick=800, thorough=15000)
def files(c):
    """each requested file once, in its own directory, whatever the others do"""
    with scratch() as d:
        for q in ('p', 'q', 'p/r', 'p q'):
            os.mkdir(q)
        for q, n, what in c['files']:
            with open(os.path.join(q, n), 'w') as f:
                f.write('%s|%s|%s' % (os.path.normpath(os.path.join(q, n)), what, n))
        info = {os.path.normpath(os.path.join(d, q, n)): what for q, n, what in c['files']}
        calls, meths = [], []

        class Obj(object):
            def __init__(self, arg):
                if c['opened']:
                    text, path = arg.read(), arg.name
                else:
                    path = arg
                    with open(arg) as f:
                        text = f.read()
                require(os.path.isabs(path), 'path %r is not absolute' % path)
                self.path = os.path.normpath(path)
                self.what = text.split('|')[1]
                require(os.path.normpath(os.path.join(d, text.split('|')[0])) == self.path, 'contents of %r' % path)
                calls.append((self.path, os.getcwd()))
                if c['mode'] == 'stop' and len(calls) == 1:
                    raise Stop()
                if self.what == 'fail':
                    raise Boom('bad file')
                if self.what == 'chdir':
                    os.chdir('/')

            def go(self, *a, **k):
                meths.append((self.path, a, k))
                if self.what == 'method':
                    raise Boom('bad method')
        ms = [('go', (a,), {'k': b}) for a, b in c['methods']]
        par = IO.GenericInputFileArgParser(Obj, pass_open_file=c['opened'], methods=ms) if ms or c['opened'] is False else IO.GenericInputFileArgParser(Obj)
        mode = c['mode']
        F, D, P = ('--filename', '--directory', '--pattern') if c['long'] else ('-f', '-d', '-p')
        pool = sorted(info)
        asked = []
        for i in c['ask']:
            p = pool[i % len(pool)]
            if p not in asked:
                asked.append(p)
        gone = os.path.join(d, 'p', 'gone.py')
        if c['missing']:
            asked.insert(len(asked) // 2, gone)
        show = [p if c['absolute'] else os.path.relpath(p, d) for p in asked]
        pat = c['pattern'] or '*.py'
        parg = [P] + ([c['pattern']] if c['pattern'] else [])
        dirs = [os.path.join(d, q) if c['absolute'] else q for q in c['dirs']]
        argv, expect, err = {'f': ([F] + show, asked, None), 'stop': ([F] + show, asked, None), 'd': ([D] + dirs + parg, c['dirs'], None), 'd0': ([D] + parg, ['.'], None), 'prompt': ([], asked, None), 'cancel': ([], [], None), 'd only': ([D] + dirs, [], SystemExit),
                             'p only': (parg, [], SystemExit), 'both': ([F] + show + [D] + dirs + parg, [], SystemExit), 'nodir': ([D] + dirs + ['nowhere'] + parg, [], SystemExit), 'f and p': ([F] + show + parg, [], SystemExit)}[mode]
        script = os.path.join(d, c['script']) if c['script'] else '/usr/bin/prog'
        if mode in ('d', 'd0'):
            want = [[os.path.normpath(os.path.join(d, q, n)) for q2, n, w in c['files'] if q2 == q and fnmatch.fnmatchcase(n, pat)] for q in expect]
            want += []
            sub = [os.path.normpath(os.path.join(d, q, s)) for q in expect for s in ('p', 'q', 'p q', 'r') if os.path.isdir(os.path.join(d, q, s)) and fnmatch.fnmatchcase(s, pat)]
            require(not sub, 'pattern')
            want = [sorted(x for x in w if x != script) for w in want]
            if not any(want):
                err = IOError
        else:
            want = [[p] for p in expect]
        root = logging.getLogger()
        h = Log()
        oldh, oldl = root.handlers[:], root.level
        root.handlers[:] = [h]
        root.setLevel(c['level'])
        oldargv, oldget, olderr, oldout = sys.argv, IO.get_filepaths, sys.stderr, sys.stdout
        sys.stderr, sys.stdout = io.StringIO(), io.StringIO()
        sys.argv = [c['script'] if c['script'] and not c['absolute'] else script] + (argv if c['sysargv'] else [])
        IO.get_filepaths = lambda *a, **k: (None if mode == 'cancel' else asked)
        got = None
        try:
            try:
                par.main(None if c['sysargv'] else argv)
            except (SystemExit, IOError, Stop) as ex:
                got = type(ex)
            level = root.level
        finally:
            sys.argv, IO.get_filepaths, sys.stderr, sys.stdout = oldargv, oldget, olderr, oldout
            root.handlers[:] = oldh
            root.setLevel(oldl)
        require(os.getcwd() == d, 'working directory is %r afterwards' % os.getcwd())
        if mode == 'stop' and os.path.exists(asked[0]) or (mode == 'stop' and calls):
            require(got is Stop and len(calls) == 1, 'stopped')
            label('stopped')
            return True
        if mode == 'stop':
            err = None
        require(got == err or (err is IOError and got in (IOError, OSError)), lambda: 'main ended with %s, expected %s; %r' % (got, err, argv))
        if err is not None:
            require(not calls, 'files processed in spite of the error')
            label('error')
            return False
        require(level == c['level'], 'logging level is %r afterwards' % level)
        flat = [p for p, w in calls]
        i = 0
        for w in want:
            w = [p for p in w if p != gone]
            part = calls[i:i + len(w)]
            require(sorted(p for p, _ in part) == sorted(w), lambda: 'processed %r, expected %r; %r' % (flat, want, argv))
            i += len(w)
        require(i == len(calls), lambda: 'processed too many: %r, expected %r' % (flat, want))
        for p, w in calls:
            require(w == os.path.dirname(p), 'working directory %r while processing %r' % (w, p))
        wm = []
        for p, w in calls:
            if info[p] != 'fail':
                for k, m in enumerate(ms):
                    if k == 0 or info[p] != 'method':
                        wm.append((p, m[1], m[2]))
        require(meths == wm, lambda: 'methods called %r, expected %r' % (meths, wm))
        bad = [p for w in want for p in w if p == gone or info.get(p) == 'fail' or (info.get(p) == 'method' and ms)]
        logged = [m for l, m in h.rows if l == 'ERROR']
        require(len(logged) == len(bad) and all(any(p in m for m in logged) for p in bad), lambda: 'problems logged %r, expected for %r' % (logged, bad))
        label('problems' if bad else 'clean')
        return len(flat) > 1


@CHECK.test(rec(path=st.lists(st.sampled_from(['p', 'q', 'p/r', '..', 'missing', 'ABS', '.']), min_size=1, max_size=4), fail=st.sampled_from(['no', 'exc', 'stop', 'chdir', 'removed'])), quick=400, thorough=8000)
def directories(c):
    """working_directory nested, with failures"""
    with scratch() as d:
        base = os.path.join(d, 'p')
        for q in ('p', 'p/p', 'p/q', 'p/p/r', 'p/p/p', 'p/q/q', 'p/p/q', 'p/r'):
            if not os.path.isdir(q):
                os.mkdir(q)
        os.chdir(base)

        def deep(i):
            if i == len(c['path']):
                if c['fail'] == 'exc':
                    raise Boom()
                if c['fail'] == 'stop':
                    raise Stop()
                if c['fail'] == 'chdir':
                    os.chdir('/')
                return 'end'
            old = os.getcwd()
            p = os.path.join(d, 'p', 'q') if c['path'][i] == 'ABS' else c['path'][i]
            new = os.path.normpath(os.path.join(old, p))
            ok = os.path.isdir(new)
            try:
                with IO.working_directory(p):
                    require(ok and os.getcwd() == new, 'in %r, expected %r' % (os.getcwd(), new))
                    r = deep(i + 1)
            except (OSError, Boom, Stop):
                require(os.getcwd() == old, 'not restored after a failure')
                raise
            require(os.getcwd() == old, 'not restored')
            return r
        try:
            r = deep(0)
            require(r == 'end' and c['fail'] in ('no', 'chdir', 'removed'), 'exception was swallowed')
        except (OSError, Boom, Stop):
            pass
        require(os.getcwd() == base, 'not restored at the end')
    return len(c['path']) > 1


# ---------------------------------------------------------------- timed calls
def job(kind, x, path=None, kw=0):
    if path:
        with open(path, 'w') as f:
            f.write(str(os.getpid()))
    if kind == 'value':
        return [x, kw]
    if kind == 'big':
        return 'x' * x + str(kw)
    if kind == 'none':
        return None
    if kind == 'false':
        return False
    if kind == 'error':
        raise Boom(x)
    if kind == 'errobj':
        raise KeyError(x, kw)
    if kind == 'sleep':
        time.sleep(.15)
        return x
    if kind == 'long':
        time.sleep(60)
    if kind == 'loop':
        e = time.time() + 60
        while time.time() < e:
            pass
    if kind == 'die':
        os._exit(3)
    if kind == 'bigerr':
        raise Boom('y' * x)


@CHECK.test(rec(kind=st.sampled_from(['value', 'big', 'big', 'none', 'false', 'error', 'errobj', 'bigerr', 'sleep', 'long', 'loop', 'die']), x=st.sampled_from([0, 1, 5, 1000, 70000, 300000, 2000000]), kw=st.integers(0, 3), kill=st.sampled_from([None, True, False]), limit=st.sampled_from([20, 30.5])), quick=60, thorough=800)
def timed(c):
    """timeout: the result, the error, or an end in time"""
    k = c['kind']
    slow = k in ('long', 'loop')
    lim = .35 if slow else c['limit']
    with scratch() as d:
        pid = os.path.join(d, 'pid')
        args = {} if c['kill'] is None else {'force_kill': c['kill']}
        f = TO.timeout(lim, **args)(job)
        t = time.time()
        try:
            got = ('value', f(k, c['x'], pid, kw=c['kw']))
        except (Boom, KeyError, AssertionError, TO.TimeoutException) as ex:
            got = (type(ex).__name__, ex.args)
        took = time.time() - t
        p = int(open(pid).read()) if os.path.exists(pid) and open(pid).read() else None
        alive = None
        if slow and p:
            alive = True
            for i in range(200 if c['kill'] is not False else 2):
                try:
                    with open('/proc/%d/stat' % p) as g:
                        if g.read().rsplit(')', 1)[1].split()[0] == 'Z':
                            alive = False
                except (IOError, OSError):
                    alive = False
                if not alive:
                    break
                time.sleep(.05)
            if alive:
                os.kill(p, signal.SIGKILL)
        if slow:
            require(got[0] == 'TimeoutException', 'long function gave %r' % (got,))
            require(lim * .9 <= took < 20, 'ended after %.2f s' % took)
            if p:
                require(alive == (c['kill'] is False), 'function is %s' % ('running' if alive else 'stopped'))
        else:
            require(took < 18, 'result after %.1f s' % took)
            want = {'value': ('value', [c['x'], c['kw']]), 'big': ('value', 'x' * c['x'] + str(c['kw'])), 'none': ('value', None), 'false': ('value', False), 'error': ('Boom', (c['x'],)), 'errobj': ('KeyError', (c['x'], c['kw'])), 'sleep': ('value', c['x']), 'bigerr': ('Boom', ('y' * c['x'],)), 'die': ('AssertionError', None)}[k]
            require(got[0] == want[0] and (k == 'die' or got[1] == want[1]), lambda: 'got %s, expected %s' % (repr(got)[:200], repr(want)[:200]))
    label(k)
    return c['x'] > 60000 or slow


# ---------------------------------------------------------------- text
@CHECK.test(rec(cs=st.one_of(st.integers(0, 10**7), st.tuples(st.integers(0, 200), st.sampled_from([-1, 0, 1, 5999, 6000])).map(lambda v: max(0, v[0] * 6000 + v[1])), st.integers(0, 40).map(lambda n: n * 360000 - (n > 0))), off=st.sampled_from([0, 0, .004, -.004, .001, -.001]), i=st.booleans()), quick=1000, thorough=20000)
def hms(c):
    """hours, minutes and seconds of the value rounded to hundredths"""
    x = c['cs'] / 100. + c['off']
    if x < 0 or abs(round(x * 1000) - x * 1000) > .2:
        return False
    if c['i'] and c['off'] == 0 and c['cs'] % 100 == 0:
        x = c['cs'] // 100
    h, r = divmod(c['cs'], 360000)
    m, s = divmod(r, 6000)
    want = '%d:%02d:%02d.%02d' % (h, m, s // 100, s % 100)
    require(IO.hms_string(x) == want, '%r is %r, expected %r' % (x, IO.hms_string(x), want))
    return c['cs'] % 6000 in (0, 5999) or c['off'] != 0


LEAF = st.one_of(st.sampled_from(['x', 'y', 'a1', 'a2', 'b12', 'z']), st.integers(1, 9), st.sampled_from(['1/3', '2.5', '7/11', '-3']))
EX = st.recursive(LEAF, lambda e: st.one_of(st.tuples(st.just('+'), st.lists(e, min_size=2, max_size=6)), st.tuples(st.just('*'), st.lists(e, min_size=2, max_size=5)), st.tuples(st.just('/'), st.tuples(e, e)), st.tuples(st.just('**'), st.tuples(e, st.sampled_from([2, 3, -1, -2, '1/2']))), st.tuples(st.sampled_from(['sin', 'cos', 'exp', 'sqrt', 'log', 'cosh', 'atan']), st.tuples(e))), max_leaves=20)


def tosym(v):
    if isinstance(v, int):
        return sp.Integer(v)
    if isinstance(v, str):
        if v == '2.5':
            return sp.Float(2.5)
        if v[0].isdigit() or v[0] == '-':
            return sp.Rational(v)
        A, B = sp.IndexedBase('a'), sp.IndexedBase('b')
        return {'a1': A[1], 'a2': A[2], 'b12': B[1, 2]}.get(v, sp.Symbol(v, positive=True) if v in 'xyz' else None)
    k, a = v[0], [tosym(q) for q in v[1]]
    if k == '+':
        return sp.Add(*a)
    if k == '*':
        return sp.Mul(*a)
    if k == '/':
        return a[0] / a[1]
    if k == '**':
        return a[0]**a[1]
    return getattr(sp, k)(a[0])


VALS = {'x': .7, 'y': 1.3, 'z': 2.1}


@CHECK.test(rec(e=EX, pre=st.sampled_from([None, 'w = ', 'a(i, j) = a(i, j) + ']), free=st.booleans()), quick=300, thorough=5000)
def fortran(c):
    """generated Fortran text has the value of the expression"""
    import cmath
    try:
        e = tosym(c['e'])
    except (ZeroDivisionError, ValueError):
        return False
    if e.has(sp.zoo, sp.nan, sp.oo, sp.I, sp.pi, sp.E) or e.has(sp.Abs, sp.re, sp.im, sp.arg, sp.sign):
        return False
    if any(f.is_number for f in e.atoms(sp.Function)):
        return False    # sympy itself prints negative numbers without brackets
    kw = {'source_format': 'free'} if c['free'] else {}
    text = IO.fcode_one_large_expr(e, prepend=c['pre'], **kw) if c['pre'] else IO.fcode_one_large_expr(e, **kw)
    lines = text.split('\n')
    if not c['free']:
        require(all(l.startswith('      ') and len(l.rstrip()) <= 73 for l in lines), lambda: 'fixed format lines %r' % lines)
    require(all(l.endswith('&') for l in lines[:-1]) and not lines[-1].endswith('&'), 'continuation marks')
    one = ''.join(l.strip().rstrip('&') if not l.rstrip().endswith('&') else l.lstrip()[:-1] for l in lines)
    if c['pre']:
        one, pre = one.replace(' ', ''), c['pre'].replace(' ', '')     # blanks mean nothing in fixed format
        require(one.startswith(pre), 'prepended text')
        one = one[len(pre):]
    require('[' not in one and ']' not in one, 'square brackets')
    py = re.sub(r'(\d)d([-+]?\d)', r'\1e\2', one)
    ns = dict(VALS, a=lambda i: [0, .9, 1.7][i], b=lambda i, j: 1.1, sin=cmath.sin, cos=cmath.cos, exp=cmath.exp, sqrt=cmath.sqrt, log=cmath.log, cosh=cmath.cosh, atan=cmath.atan)
    try:
        got = complex(eval(py, {'__builtins__': {}}, ns))
    except (OverflowError, ZeroDivisionError, ValueError):
        return False
    A, B = sp.IndexedBase('a'), sp.IndexedBase('b')
    sub = {A[1]: sp.Float('.9', 40), A[2]: sp.Float('1.7', 40), B[1, 2]: sp.Float('1.1', 40)}
    sub.update({sp.Symbol(k, positive=True): sp.Float(str(v), 40) for k, v in VALS.items()})
    try:
        want = complex(e.subs(sub).evalf(30))
        if any(abs(complex(f.args[0].subs(sub).evalf(30))) > 1e3 for f in e.atoms(sp.Function)):
            return False    # rounding of a huge argument
    except (TypeError, OverflowError):
        return False
    if not (1e-12 < abs(want) < 1e12) or want.imag:
        return False
    close(got, want, 1e-7, 1e-9, 'value of %r (%s)' % (one, e), scale=1.)
    label('wrapped' if len(lines) > 1 else 'one line')
    return len(lines) > 1


@CHECK.test(rec(ev=st.lists(st.tuples(st.sampled_from(['start', 'start', 'finish']), st.integers(0, 3), maybe(st.sampled_from(['msg', 'a b', ''])), num(0, 5000)), min_size=1, max_size=8), mod=st.integers(0, 5), exc=st.booleans()), quick=300, thorough=5000)
def timer(c):
    """SimpleTimer messages; modules_in_package; object_members"""
    class Clock(object):
        now = 1000.

        def time(self):
            return self.now
    clk, old, out = Clock(), IO.time, sys.stdout
    want, begun, names = [], {}, {}
    tm = IO.SimpleTimer()
    IO.time, sys.stdout = clk, io.StringIO()
    try:
        for kind, i, msg, dt in c['ev']:
            clk.now += dt
            if kind == 'start':
                tm.start(i, msg) if msg is not None else tm.start(i)
                begun[i], names[i] = clk.now, 'Level %d' % i if msg is None else msg
                want += ['*' * 40] * (i == 0) + ['  ' * i + 'Started ' + names[i]]
            elif i in begun:
                tm.finish(i)
                want += ['  ' * i + 'Finished %s, run time = %s' % (names[i], datetime.timedelta(seconds=clk.now - begun[i]))] + ['*' * 40] * (i == 0)
        got = sys.stdout.getvalue()
    finally:
        IO.time, sys.stdout = old, out
    require(got == ''.join(w + '\n' for w in want), lambda: 'printed %r, expected %r' % (got, want))
    import geotecha
    pk = ['consolidation', 'mathematics', 'inputoutput', 'piecewise', 'beam_on_foundation', 'plotting'][c['mod']]
    d = os.path.join(os.path.dirname(geotecha.__file__), pk)
    mods = set(f[:-3] for f in os.listdir(d) if f.endswith('.py') and f != '__init__.py') | set(f for f in os.listdir(d) if os.path.exists(os.path.join(d, f, '__init__.py')))
    ex = ['test'] + (['inputoutput', 'hankel'] if c['exc'] else [])
    gm = IO.modules_in_package('geotecha.' + pk, **({'exclude': ex} if c['exc'] else {}))
    gm = [m for m in gm if os.path.exists(os.path.join(d, m + '.py')) or os.path.isdir(os.path.join(d, m))]
    require(sorted(gm) == sorted(mods - set(ex)), 'modules in %s: %r' % (pk, gm))
    import math as M, textwrap
    for obj, kind, want in ((M, 'routine', sorted(n for n in dir(M) if callable(getattr(M, n)) and not n.startswith('__'))), (textwrap, 'function', ['dedent', 'fill', 'indent', 'shorten', 'wrap']), (np, 'ufunc', sorted(n for n in dir(np) if isinstance(getattr(np, n, None), np.ufunc)))):
        lst = IO.object_members(obj, kind, join=False)
        require([n for n in lst if not n.startswith('__')] == want, 'members of %s' % obj.__name__)
        txt = IO.object_members(obj, kind)
        require(txt.split() == lst and all(len(l) <= 65 for l in txt.split('\n')), 'text of members')
    return len(c['ev']) > 2
