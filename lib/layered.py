"""Independent reference for separable linear consolidation problems: spectral-element
eigen-problems  K phi = lam M phi  and exact response to piecewise-linear loads."""
import numpy as np
from scipy.linalg import eigh
from numpy.polynomial import legendre as Lg


def _gll(p):
    c = np.zeros(p + 1)
    c[p] = 1
    x = np.concatenate(([-1.], np.sort(np.real(Lg.legroots(Lg.legder(c)))), [1.]))
    return x


class Basis(object):
    """Lagrange polynomials through Gauss-Lobatto points, and their derivatives, at Gauss points"""
    _made = {}

    def __init__(self, p):
        self.p, self.x = p, _gll(p)
        self.xg, self.wg = Lg.leggauss(p + 6)
        V = Lg.legvander(self.x, p)
        self.Vi = np.linalg.inv(V)
        self.N = self.at(self.xg)
        D = np.array([Lg.legval(self.xg, Lg.legder(np.eye(p + 1)[k])) if k else np.zeros_like(self.xg) for k in range(p + 1)]).T
        self.D = D @ self.Vi

    def at(self, x):
        return Lg.legvander(np.asarray(x), self.p) @ self.Vi

    @classmethod
    def get(cls, p):
        if p not in cls._made:
            cls._made[p] = cls(p)
        return cls._made[p]


class Problem(object):
    """elements between `nodes`; functions stiff(x), mass(x), react(x) given per element as callables of (element, x)"""

    def __init__(self, nodes, stiff, mass, react=None, p=24):
        b = self.b = Basis.get(p)
        self.nodes = np.asarray(nodes, float)
        self.react = react is not None
        ne = len(nodes) - 1
        self.ndof = ne * p + 1
        self.K = np.zeros((self.ndof, self.ndof))
        self.M = np.zeros((self.ndof, self.ndof))
        self.F = np.zeros(self.ndof)      # integral of mass * basis
        self.I = np.zeros(self.ndof)      # integral of basis
        for e in range(ne):
            x0, x1 = self.nodes[e], self.nodes[e + 1]
            J = (x1 - x0) / 2
            x = x0 + J * (b.xg + 1)
            w = b.wg * J
            k, m = stiff(e, x) * np.ones_like(x), mass(e, x) * np.ones_like(x)
            s = slice(e * p, e * p + p + 1)
            self.K[s, s] += (b.D * (w * k)[:, None]).T @ b.D / J**2
            if react is not None:
                self.K[s, s] += (b.N * (w * react(e, x))[:, None]).T @ b.N
            self.M[s, s] += (b.N * (w * m)[:, None]).T @ b.N
            self.F[s] += b.N.T @ (w * m)
            self.I[s] += b.N.T @ w

    def solve(self, fix_left, fix_right, n, robin_left=0., robin_right=0.):
        """first n eigenpairs; modes are M-orthonormal"""
        K = self.K.copy()
        K[0, 0] += robin_left
        K[-1, -1] += robin_right
        a, z = (1 if fix_left else 0), (self.ndof - 1 if fix_right else self.ndof)
        if fix_left or fix_right or robin_left or robin_right or self.react:
            # 1/lam: the slow modes are the large eigenvalues, so they do not suffer from fast ones
            q = z - a
            mu, v = eigh(self.M[a:z, a:z], K[a:z, a:z], subset_by_index=[q - n, q - 1])
            mu, v = mu[::-1], v[:, ::-1]
            lam, v = 1 / mu, v / np.sqrt(mu)
        else:
            lam, v = eigh(K[a:z, a:z], self.M[a:z, a:z], subset_by_index=[0, n - 1])
        phi = np.zeros((self.ndof, n))
        phi[a:z] = v
        return lam, phi

    def value(self, phi, x):
        out = np.zeros((len(x), phi.shape[1]))
        p = self.b.p
        for i, xx in enumerate(x):
            e = min(max(int(np.searchsorted(self.nodes, xx, side='left')) - 1, 0), len(self.nodes) - 2)
            s = 2 * (xx - self.nodes[e]) / (self.nodes[e + 1] - self.nodes[e]) - 1
            out[i] = (self.b.at([s]) @ phi[e * p:e * p + p + 1])[0]
        return out


def response(x, y, lam, t):
    """integral of dq/dtau exp(-lam (t - tau)) for q piecewise linear through (x, y), steps at or before t included"""
    lam = np.asarray(lam, float)
    out = np.zeros_like(lam)
    for a, b, qa, qb in zip(x[:-1], x[1:], y[:-1], y[1:]):
        if a > t:
            break
        if a == b:
            out += (qb - qa) * np.exp(-lam * (t - a))
        elif qa != qb and t > a:
            e = min(b, t)
            out += (qb - qa) / (b - a) * np.exp(-lam * (t - e)) * -np.expm1(-lam * (e - a)) / lam
    return out


def load_at(x, y, t):
    """value of the load, after a step"""
    v = y[0]
    for a, b, qa, qb in zip(x[:-1], x[1:], y[:-1], y[1:]):
        if a > t:
            break
        if a == b:
            v = qb
        else:
            v = qa + (qb - qa) * (min(t, b) - a) / (b - a)
    return v
