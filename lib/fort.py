"""Compile the repository's Fortran sources from the current working tree.

Nothing compiled by anybody else is used: the build is keyed by the content of
the source file and kept in a git-ignored folder of /verif, and the resulting
module is registered in sys.modules under the package name, ahead of whatever
shared object may lie in the repository.
"""
import hashlib, importlib.util, os, shutil, subprocess, sys, tempfile, glob

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
CACHE = os.path.join(ROOT, '.cache')


def build(rel):
    src = os.path.join(REPO, rel)
    data = open(src, 'rb').read()
    name = os.path.splitext(os.path.basename(rel))[0]
    key = hashlib.sha256(data + sys.version.encode()).hexdigest()[:20]
    d = os.path.join(CACHE, name + '-' + key)
    so = glob.glob(os.path.join(d, name + '*.so'))
    if so:
        return so[0]
    os.makedirs(CACHE, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix='f2py-', dir=CACHE)
    try:
        f = os.path.join(tmp, name + '.f95')
        open(f, 'wb').write(data)
        r = subprocess.run([sys.executable, '-m', 'numpy.f2py', '-c', '--backend', 'meson',
                            '--build-dir', os.path.join(tmp, 'b'), '-m', name, name + '.f95'],
                           cwd=tmp, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        so = glob.glob(os.path.join(tmp, name + '*.so'))
        if r.returncode or not so:
            raise RuntimeError('cannot compile %s:\n%s' % (rel, r.stdout[-3000:]))
        out = os.path.join(tmp, 'out')
        os.makedirs(out)
        shutil.copy(so[0], out)
        try:
            os.rename(out, d)
        except OSError:
            pass  # another process was faster
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return glob.glob(os.path.join(d, name + '*.so'))[0]


def load(rel):
    """Build `rel` and register it as the package's extension module."""
    so = build(rel)
    modname = os.path.splitext(rel)[0].replace('/', '.')
    parent, _, leaf = modname.rpartition('.')
    importlib.import_module(parent)
    spec = importlib.util.spec_from_file_location(modname, so)
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    sys.modules[modname] = mod
    setattr(sys.modules[parent], leaf, mod)
    return mod


def speccon():
    return load('geotecha/speccon/ext_integrals.f95')


def epus():
    return load('geotecha/constitutive_models/epus_ext.f95')
