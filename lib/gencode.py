"""Run the code generators of geotecha/speccon/integrals_generate_code.py and load what they print.

The generated Python is executed in a module that imports what the real
integrals module imports; the generated Fortran is compiled and put in the
place of geotecha.speccon.ext_integrals while a generated function runs, which
is where the generated Python looks for it.
"""
import glob, hashlib, importlib.util, multiprocessing, os, pickle, shutil, subprocess, sys, tempfile
import fort

NAMES = ['Eload_linear', 'EDload_linear', 'Eload_coslinear', 'EDload_coslinear', 'Eload_sinlinear', 'dim1sin_af_linear', 'dim1sin_abf_linear', 'dim1sin_D_aDf_linear', 'dim1sin_ab_linear',
         'dim1sin_abc_linear', 'dim1sin_D_aDb_linear', 'dim1sin_DD_abDDf_linear', 'dim1sin_a_linear_between', 'dim1_ab_linear_between']
BOTH = NAMES[:12]
PY = {}
EXT = None
TYPES = '      MODULE types\n        IMPLICIT NONE\n        INTEGER, PARAMETER :: DP = KIND(0.0D0)\n      END MODULE\n\n'


def one(name):
    import geotecha.speccon.integrals_generate_code as G
    r = getattr(G, name + '_implementations' if name in BOTH else name)()
    return name, (tuple(map(str, r)) if isinstance(r, tuple) else (str(r),))


def texts():
    h = hashlib.sha256(sys.version.encode())
    for f in sorted(glob.glob(os.path.join(fort.REPO, 'geotecha', '**', '*.py'), recursive=True)):
        h.update(f.encode() + open(f, 'rb').read())
    p = os.path.join(fort.CACHE, 'gencode-%s.pickle' % h.hexdigest()[:20])
    if os.path.exists(p):
        return pickle.load(open(p, 'rb'))
    slow = ['dim1sin_abf_linear', 'dim1sin_DD_abDDf_linear', 'Eload_coslinear', 'EDload_coslinear', 'Eload_sinlinear']
    with multiprocessing.Pool(min(8, os.cpu_count() or 1)) as pool:
        d = dict(pool.map(one, slow + [n for n in NAMES if n not in slow], chunksize=1))
    os.makedirs(fort.CACHE, exist_ok=True)
    for q in glob.glob(os.path.join(fort.CACHE, 'gencode-*.pickle')):
        os.remove(q)
    t = p + '.%d' % os.getpid()
    with open(t, 'wb') as f:
        pickle.dump(d, f)
    os.rename(t, p)
    return d


def setup():
    global EXT
    fort.speccon()
    d = texts()
    import geotecha.speccon.integrals as integ
    for name in NAMES:
        ns = dict(vars(integ))
        try:
            exec(compile(d[name][0], '<generated %s>' % name, 'exec'), ns)
        except SyntaxError as e:
            PY[name] = 'the generated text is not Python: %s' % e
            continue
        new = 'integrate_x1a_x2a_y1a_y2a_multiply_x1b_x2b_y1b_y2b_between' if name == 'dim1_ab_linear_between' else name
        PY[name] = ns.get(new) if ns.get(new) is not getattr(integ, new, None) else 'the generated text does not define %s' % new
    src = TYPES + '\n\n'.join(d[n][1] for n in BOTH) + '\n'
    key = hashlib.sha256((src + sys.version).encode()).hexdigest()[:20]
    out = os.path.join(fort.CACHE, 'gen-' + key)
    if not glob.glob(out + '/gen_ext*.so'):
        tmp = tempfile.mkdtemp(prefix='f2py-', dir=fort.CACHE)
        try:
            open(os.path.join(tmp, 'gen_ext.f95'), 'w').write(src)
            r = subprocess.run([sys.executable, '-m', 'numpy.f2py', '-c', '--backend', 'meson', '--build-dir', os.path.join(tmp, 'b'), '-m', 'gen_ext', 'gen_ext.f95'],
                               cwd=tmp, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            so = glob.glob(tmp + '/gen_ext*.so')
            if r.returncode or not so:
                EXT = 'the generated Fortran does not compile: ' + '\n'.join(l for l in r.stdout.split('\n') if 'Error' in l or 'error' in l)[:1500]
                return
            os.makedirs(tmp + '/out')
            shutil.copy(so[0], tmp + '/out')
            try:
                os.rename(tmp + '/out', out)
            except OSError:
                pass
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    spec = importlib.util.spec_from_file_location('gen_ext', glob.glob(out + '/gen_ext*.so')[0])
    EXT = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(EXT)


class installed(object):
    """the generated Fortran in the place where the generated Python looks for it"""
    def __enter__(self):
        import geotecha.speccon
        self.old = sys.modules['geotecha.speccon.ext_integrals']
        sys.modules['geotecha.speccon.ext_integrals'] = EXT
        geotecha.speccon.ext_integrals = EXT

    def __exit__(self, *a):
        import geotecha.speccon
        sys.modules['geotecha.speccon.ext_integrals'] = self.old
        geotecha.speccon.ext_integrals = self.old
