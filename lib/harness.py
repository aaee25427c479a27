"""Small layer over Hypothesis shared by all checks.

A check module (checks/<id>.py) creates CHECK = Check(id, rule=...) and
registers tests:

    @CHECK.test(strategy, quick=200, thorough=5000)
    def name(case): ...

`strategy` draws plain JSON-able data (the *case*), the function builds the
inputs from it, drives the code under test and judges it against its oracle.
It returns True when the case was non-trivial by the check's stated rule and
raises (Violation, or anything else coming out of the code under test) when
the property is broken.  A saved case replays without Hypothesis.
"""
import boot  # noqa: F401
import json, math
import numpy as np
from hypothesis import strategies as st

__all__ = ['Check', 'Violation', 'close', 'require', 'st', 'np', 'num', 'grid', 'frac', 'math', 'fail', 'rec', 'raises',
           'snapshot', 'same_snapshot', 'label', 'maybe', 'logu']


class Violation(AssertionError):
    pass


class Test(object):
    def __init__(self, fn, strategy, quick, thorough, shards):
        self.fn, self.strategy, self.quick, self.thorough, self.shards = fn, strategy, quick, thorough, shards
        self.name = fn.__name__


class Check(object):
    def __init__(self, id, rule, setup=None, assumptions=(), case_timeout=240, quick_scale=1):
        self.id, self.rule, self.setup, self.quick_scale = id, rule, setup, quick_scale
        self.assumptions = list(assumptions)
        self.case_timeout = case_timeout
        self.tests = []

    def test(self, strategy, quick=100, thorough=None, shards=8):
        def deco(fn):
            self.tests.append(Test(fn, strategy, quick, thorough or quick * 25, shards))
            return fn
        return deco


LABELS = {}


def label(name):
    """Count an interesting class of cases (reported in the evidence)."""
    LABELS[name] = LABELS.get(name, 0) + 1


def fail(msg):
    raise Violation(msg)


def require(cond, msg):
    if not bool(cond):
        raise Violation(msg() if callable(msg) else msg)


def _short(a):
    return np.array2string(np.asarray(a), precision=12, threshold=40)


def close(got, want, rtol=1e-9, atol=1e-12, what='value', scale=None):
    """Elementwise |got-want| <= atol + rtol*max(|want|, scale)."""
    g = np.asarray(got)
    w = np.asarray(want)
    if g.dtype == object or w.dtype == object:
        g = g.astype(complex if any(isinstance(v, complex) for v in g.ravel()) else float)
        w = w.astype(float)
    if g.shape != w.shape:
        raise Violation('%s: shape %s, expected %s' % (what, g.shape, w.shape))
    if g.size == 0:
        return
    ref = np.abs(w)
    if scale is not None:
        ref = np.maximum(ref, scale)
    with np.errstate(all='ignore'):
        bad = ~(np.abs(g - w) <= atol + rtol * ref)
    both_nan = np.isnan(g) & np.isnan(w)
    both_inf = np.isinf(g) & np.isinf(w) & (g == w)
    bad &= ~(both_nan | both_inf)
    if bad.any():
        i = tuple(int(v[0]) for v in np.nonzero(bad)) if g.ndim else ()
        raise Violation('%s: got %r, expected %r at index %s (rtol=%g atol=%g)\n got  %s\n want %s' % (
            what, g[i], w[i], i, rtol, atol, _short(g), _short(w)))


def raises(exc, fn, what):
    """fn() must raise one of exc."""
    try:
        r = fn()
    except exc:
        return
    raise Violation('%s: expected %s, got result %r' % (what, exc, r))


def snapshot(*objs):
    import copy
    return [copy.deepcopy(o) for o in objs]


def same_snapshot(snap, *objs, what='input'):
    for i, (a, b) in enumerate(zip(snap, objs)):
        if not _eq(a, b):
            raise Violation('%s #%d was altered: before %r after %r' % (what, i, a, b))


def _eq(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return (type(a) == type(b) and a.shape == b.shape and a.dtype == b.dtype
                and all((x == y) or (x != x and y != y) for x, y in zip(a.ravel().tolist(), b.ravel().tolist())))
    if isinstance(a, dict):
        return isinstance(b, dict) and list(a) == list(b) and all(_eq(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return type(a) == type(b) and len(a) == len(b) and all(_eq(x, y) for x, y in zip(a, b))
    if hasattr(a, 'xy') and hasattr(b, 'xy'):
        return _eq(np.array(a.xy), np.array(b.xy))
    return a is b or a == b or (a != a and b != b)


# ---- strategies giving short, exactly representable numbers ----------------
def grid(lo, hi, n):
    """lo + (hi-lo)*i/n; shrinks towards lo; coincidences are common."""
    lo, hi = float(lo), float(hi)
    return st.integers(0, n).map(lambda i: round(lo + (hi - lo) * i / n, 12))


def num(lo, hi, coarse=16, fine=100000):
    """mixture of a coarse grid and a fine one."""
    return st.one_of(grid(lo, hi, coarse), grid(lo, hi, fine))


def logu(lo, hi, n=2000):
    """log-uniform between lo and hi (4 significant figures)."""
    a, b = math.log(lo), math.log(hi)
    return st.integers(0, n).map(lambda i: float('%.4g' % math.exp(a + (b - a) * i / n)))


def frac(n=64):
    return grid(0, 1, n)


def maybe(s, p=None):
    return st.one_of(st.none(), s)


def rec(**kw):
    s = st.fixed_dictionaries(kw)
    s.independent_fields = True   # any field of one case may be put into another (runner.py)
    return s


def dumps(case):
    return json.dumps(case, sort_keys=True)
