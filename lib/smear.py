"""Radial permeability profiles of the smear-zone models and the equal-strain drain integrals over them.

kap(t) = kh/k(t) at t = r/rw; reference integrals are Gauss quadrature over smooth pieces."""
from harness import *

XG, WG = np.polynomial.legendre.leggauss(24)


def quad(f, edges):
    """integral of f over [edges[0], edges[-1]], smooth between edges"""
    tot = 0.
    for a, b in zip(edges[:-1], edges[1:]):
        if b <= a:
            continue
        k = max(1, int(math.ceil(3 * math.log(b / a))), int(math.ceil(2 * (b - a) / b)))
        g = np.exp(np.linspace(math.log(a), math.log(b), k + 1))
        for p, q in zip(g[:-1], g[1:]):
            h = (q - p) / 2
            tot += h * (WG @ f((p + q) / 2 + h * XG))
    return tot


class Profile(object):
    """piecewise: list of (t1, t2, k(t)/kh)"""
    def __init__(self, pieces):
        self.p = [q for q in pieces if q[1] > q[0]]
        self.n = self.p[-1][1]

    def edges(self, a, b):
        return sorted(set([a, b] + [q[0] for q in self.p if a < q[0] < b]))

    def integ(self, g, a, b):
        """int_a^b g(t, kh/k(t)) dt"""
        tot = 0.
        for t1, t2, k in self.p:
            lo, hi = max(a, t1), min(b, t2)
            if hi > lo:
                tot += quad(lambda t: g(t, 1. / k(t)), self.graded(k, lo, hi))
        return tot

    @staticmethod
    def graded(k, lo, hi):
        """break points so that k changes by less than a factor of 2 between them"""
        u, v = float(k(np.array(lo))), float(k(np.array(hi)))
        m = int(abs(math.log(u / v)) / 0.7) + 1
        if m == 1:
            return [lo, hi]
        q = u * (v / u)**(np.arange(m + 1) / float(m))
        return [lo] + list(lo + (hi - lo) * (q[1:-1] - u) / (v - u)) + [hi]

    def k(self, t):
        for t1, t2, k in self.p:
            if t < t2 or t2 == self.n:
                return float(k(np.array(float(t))))

    def mu(self):
        n = self.n
        return n**2 / (n**2 - 1) * self.integ(lambda t, r: r * (1 - t * t / n**2)**2 / t, 1., n)

    def u(self, t, uavg, uw, muw):
        n = self.n
        F = self.integ(lambda x, r: r * (1 / x - x / n**2), 1., t)
        return uw + (uavg - uw) / (self.mu() + muw) * (F + muw)

    def beta(self, nf):
        n = self.n
        return self.integ_nf(lambda t, r: r**(1 / nf) * t**(-1 / nf) * (1 - t * t / n**2)**(1 / nf) * (n**2 - t * t), 1., n, nf) / (n**2 - 1)

    def u_nf(self, t, uavg, uw, muw, nf):
        n = self.n
        F = self.integ_nf(lambda x, r: r**(1 / nf) * x**(-1 / nf) * (1 - x * x / n**2)**(1 / nf), 1., t, nf)
        return uw + (uavg - uw) / (self.beta(nf) + muw) * (F + muw)

    def integ_nf(self, g, a, b, nf):
        """as integ, but the integrand behaves like (n-t)**(1/nf) at t=n: substitute t = n - (n-lo) x**3"""
        tot = 0.
        for t1, t2, k in self.p:
            lo, hi = max(a, t1), min(b, t2)
            if hi <= lo:
                continue
            if hi < self.n:
                # cluster towards hi as it may lie close to n
                L = hi - lo
                f = lambda x: g(hi - L * x**3, 1. / k(hi - L * x**3)) * 3 * L * x * x
            else:
                L = hi - lo
                f = lambda x: g(hi - L * x**3, 1. / k(hi - L * x**3)) * 3 * L * x * x
            e = np.linspace(0, 1, 25)
            for p, q in zip(e[:-1], e[1:]):
                h = (q - p) / 2
                tot += h * (WG @ f((p + q) / 2 + h * XG))
        return tot


def ones(t):
    return np.ones_like(t)


def constant(n, s, kap):
    return Profile([(1., s, lambda t: ones(t) / kap), (s, n, ones)])


def linear(n, s, kap):
    if s == 1:
        return Profile([(1., n, ones)])
    return Profile([(1., s, lambda t: 1 / kap + (1 - 1 / kap) * (t - 1) / (s - 1)), (s, n, ones)])


def parabolic(n, s, kap):
    if s == 1:
        return Profile([(1., n, ones)])
    return Profile([(1., s, lambda t: 1 / kap + (1 - 1 / kap) * (1 - ((s - t) / (s - 1))**2)), (s, n, ones)])


def overlapping(n, s, kap):
    if s <= n:
        return linear(n, s, kap)
    sx = 2 * n - s
    line = lambda t: 1 / kap + (1 - 1 / kap) * (t - 1) / (s - 1)
    if sx <= 1:
        return Profile([(1., n, lambda t: ones(t) / kap)])
    return Profile([(1., sx, line), (sx, n, lambda t: ones(t) * line(sx))])


def pw_constant(s, kap):
    e = [1.] + list(s)
    return Profile([(a, b, (lambda t, v=v: ones(t) / v)) for a, b, v in zip(e[:-1], e[1:], kap)])


def pw_linear(s, kap):
    def seg(a, b, u, v):
        return lambda t: 1 / u + (1 / v - 1 / u) * (t - a) / (b - a)
    return Profile([(a, b, seg(a, b, u, v)) for a, b, u, v in zip(s[:-1], s[1:], kap[:-1], kap[1:]) if b > a])


# ---- generators: kap exactly 1 or at least 1 % away from it (see known findings)
kaps = st.one_of(st.just(1.0), st.sampled_from([2., 3., 5., 1.8]), logu(1.01, 20), logu(0.1, 0.99))
kaps_big = st.one_of(st.just(1.0), st.sampled_from([2., 3., 5., 1.8, 4 / 3.]), logu(1.01, 20))
ns = st.one_of(st.sampled_from([2., 5., 10., 20.]), logu(1.2, 100))
fr = st.one_of(st.sampled_from([0., 0.5, 1.]), grid(0, 1, 500))


def smear():
    """n, s (1..n), kap; the interesting coincidences s == kap, s == n, s == 1, and the parabola with A == B are frequent"""
    def build(d):
        n, f, kap, how = d
        s = round(1 + (n - 1) * f, 4)
        s = min(s, n)
        if s - 1 < 0.02:
            s = 1.
        if how == 1 and s > 1.05:
            kap = s
        elif how == 2 and 1.3 < s:
            kap = s * s / (2 * s - 1)
        return dict(n=n, s=s, kap=kap)
    return st.tuples(ns, fr, kaps, st.integers(0, 5)).map(build)


def pieces(first_one, lin):
    def build(d):
        k, n, fs, ks, same = d
        s = sorted(set(round(1 + (n - 1) * f, 3) for f in fs[:k] if 0.01 < f < 1))
        s = [v for v in s if v - 1 > 0.02 and n - v > 0.02]
        out = []
        for v in s:
            if not out or v - out[-1] > 0.02:
                out.append(v)
        s = out
        if not lin:
            return dict(s=s + [n], kap=ks[:len(s) + 1])
        S, K = [1.0], [ks[0]]
        for i, v in enumerate(s):
            kv = ks[i + 1]
            if same[i] == 1:
                kv = K[-1]
            elif same[i] == 2:
                kv = K[-1] * S[-1] / v
            if abs(kv / K[-1] - 1) < 0.03 and kv != K[-1]:
                kv = K[-1]
            S.append(v)
            K.append(kv)
            if same[i] == 3:      # a step
                S.append(v)
                K.append(ks[-1 - i] if abs(ks[-1 - i] / K[-1] - 1) > .03 else K[-1])
        S.append(n)
        kv = ks[len(s) + 1]
        if same[-1] == 1:
            kv = K[-1]
        if abs(kv / K[-1] - 1) < 0.03:
            kv = K[-1]
        K.append(kv)
        return dict(s=S, kap=K)
    k = logu(0.2, 10)
    return st.tuples(st.integers(0, 4), ns, st.lists(fr, min_size=4, max_size=4), st.lists(st.one_of(st.sampled_from([1., 2., 3.]), k), min_size=10, max_size=10),
                     st.lists(st.integers(0, 4), min_size=5, max_size=5)).map(build)


def radii(n, fs):
    return [min(n, max(1., round(1 + (n - 1) * f, 6))) for f in fs]


rfr = st.lists(st.one_of(st.sampled_from([0., 1., 0.5]), grid(0, 1, 1000)), min_size=1, max_size=4)
