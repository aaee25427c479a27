"""Make Hypothesis importable without exposing the rest of its environment
(that environment carries other numpy/scipy versions)."""
import importlib.machinery, sys

_SITE = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
_NAMES = ('hypothesis', '_hypothesis_globals', '_hypothesis_ftz_detector', 'attr', 'attrs', 'sortedcontainers')


class _Finder:
    @staticmethod
    def find_spec(name, path=None, target=None):
        if path is None and name.split('.')[0] in _NAMES:
            return importlib.machinery.PathFinder.find_spec(name, [_SITE])
        return None


try:
    import hypothesis  # noqa: F401  (already installed?)
except ImportError:
    sys.meta_path.append(_Finder)
    import hypothesis  # noqa: F401
