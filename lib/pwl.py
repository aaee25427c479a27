"""Exact (rational) model of piecewise-linear data and its generators."""
from fractions import Fraction as Fr
from harness import st, num, grid

F0 = Fr(0)


class Pwl(object):
    """points: list of (x, y) with x non-decreasing and not all equal."""
    def __init__(self, points):
        self.p = [(Fr(x), Fr(y)) for x, y in points]
        self.segs = [(a, b) for a, b in zip(self.p[:-1], self.p[1:]) if a[0] != b[0]]

    @staticmethod
    def _at(seg, x):
        (x0, y0), (x1, y1) = seg
        return y0 + (y1 - y0) * (x - x0) / (x1 - x0)

    def seg_val(self, x, choose_max=False):
        x = Fr(x)
        s = [g for g in self.segs if g[0][0] <= x <= g[1][0]]
        if s:
            return self._at(s[-1 if choose_max else 0], x)
        return self.p[0][1] if x < self.p[0][0] else self.p[-1][1]

    def L(self, x):
        """limit from the left (extended by the end values)"""
        x = Fr(x)
        if x <= self.p[0][0]:
            return self.p[0][1]
        if x > self.p[-1][0]:
            return self.p[-1][1]
        for g in self.segs:
            if g[0][0] < x <= g[1][0]:
                return self._at(g, x)

    def R(self, x):
        x = Fr(x)
        if x < self.p[0][0]:
            return self.p[0][1]
        if x >= self.p[-1][0]:
            return self.p[-1][1]
        for g in self.segs:
            if g[0][0] <= x < g[1][0]:
                return self._at(g, x)

    def integral(self, a, b):
        a, b = Fr(a), Fr(b)
        t = F0
        if a < self.p[0][0]:
            t += self.p[0][1] * (min(b, self.p[0][0]) - a)
        if b > self.p[-1][0]:
            t += self.p[-1][1] * (b - max(a, self.p[-1][0]))
        for g in self.segs:
            lo, hi = max(a, g[0][0]), min(b, g[1][0])
            if hi > lo:
                t += (self._at(g, lo) + self._at(g, hi)) * (hi - lo) / 2
        return t

    def xs(self):
        return sorted(set(x for x, y in self.p))


def product_integral(f, g, a, b):
    a, b = Fr(a), Fr(b)
    xs = sorted(set([a, b] + [x for x in f.xs() + g.xs() if a < x < b]))
    t = F0
    for lo, hi in zip(xs[:-1], xs[1:]):
        f0, f1, g0, g1 = f.R(lo), f.L(hi), g.R(lo), g.L(hi)
        h = hi - lo
        t += h * (2 * f0 * g0 + f0 * g1 + f1 * g0 + 2 * f1 * g1) / 6
    return t


def points(min_n=2, max_n=7, xlo=-4, xhi=4, ylo=-5, yhi=5, jumps=True, unit=8, strict=False):
    """list of [x, y]; x on a grid of 1/unit (or 1/10) with coincident x's."""
    def build(t):
        x0, incs, ys, u = t
        n = min(len(incs) + 1, len(ys))
        incs = incs[:n - 1]
        if not any(incs):
            incs = incs[:-1] + [u]
        xs = [x0]
        k = 0
        out = [[round(x0, 10), ys[0]]]
        for d, y in zip(incs, ys[1:]):
            k += d
            out.append([round(x0 + float(k) / u, 10), y])
        return out
    inc = st.one_of(st.integers(1, 12), st.integers(1, 40)) if (strict or not jumps) else st.one_of(st.integers(0, 0), st.integers(1, 12), st.integers(1, 40))
    return st.integers(min_n, max_n).flatmap(
        lambda n: st.tuples(num(xlo, xhi, 8, 800), st.lists(inc, min_size=n - 1, max_size=n - 1),
                            st.lists(num(ylo, yhi, 20, 1000), min_size=n, max_size=n),
                            st.sampled_from([unit, unit, 10]))).map(build)


def span(pts):
    return pts[0][0], pts[-1][0]


def place(pts, ts, beyond=0.0):
    """Turn fractions/indices into positions: int i -> node i, float -> fraction of the (extended) span."""
    a, b = span(pts)
    w = b - a
    out = []
    for t in ts:
        if isinstance(t, int):
            out.append(pts[t % len(pts)][0])
        else:
            out.append(round(a - beyond * w + t * w * (1 + 2 * beyond), 9))
    return out


positions = st.lists(st.one_of(st.integers(0, 12), grid(0, 1, 64), grid(0, 1, 10007)), min_size=1, max_size=6)
