"""N03: quadrature rules exact to their degree; Shanks acceleration."""
from harness import *
from fractions import Fraction as F
from numpy.polynomial import legendre as L
import geotecha.mathematics.quadrature as Q

CHECK = Check('N03', rule='several intervals or a vector-valued integrand, or at least two extrapolation steps',
              assumptions=['integrands evaluable on arrays of any shape, as documented', 'reference sequences are well conditioned (no nearly vanishing denominators)'])

GL = [2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 32, 64, 100]
GK = [7, 10, 15, 20, 25, 30]


@CHECK.test(rec(rule=st.sampled_from(['gl'] * 3 + ['gk']), n=st.integers(0, 21), top=st.booleans(), deg=num(0, 1), a=num(-5, 5), widths=st.lists(num(.05, 3), min_size=1, max_size=5), gaps=st.lists(num(0, 1), min_size=5, max_size=5), flip=st.booleans(),
                co=st.lists(st.integers(-4, 4), min_size=1, max_size=12), vec=st.integers(0, 3), total=st.booleans(), arg=st.booleans(), scalar=st.booleans(), cplx=st.booleans()), quick=3000, thorough=60000)
def polynomials(c):
    """integral of a Legendre series of the highest degree the rule is exact for"""
    gl = c['rule'] == 'gl'
    n = GL[c['n']] if gl else GK[c['n'] % len(GK)]
    exact = 2 * n - 1 if gl else 3 * n + 1 + n % 2
    deg = exact if c['top'] else int(c['deg'] * exact)
    w = c['widths'][:1] if c['scalar'] else c['widths']
    a = np.cumsum([c['a']] + [x + g for x, g in zip(w, c['gaps'])])[:-1]
    b = a + np.array(w)
    lo, hi = a[0], b[-1]
    if c['flip']:
        a, b = b[::-1], a[::-1]
    co = np.zeros(deg + 1)
    m = min(len(c['co']), deg + 1)
    co[:m // 2] = c['co'][:m // 2]
    co[deg + 1 - (m - m // 2):] = c['co'][m // 2:m]
    mult = 1 + .5 * np.arange(c['vec'])
    shift = .25 if c['arg'] else 0.

    def f(x, *args):
        t = 2 * (x - lo) / (hi - lo) - 1
        y = L.legval(t, co) + (args[0] if args else 0)
        if c['cplx']:
            y = y * (1 - 2j)
        return y * mult if c['vec'] else y

    ci = L.legint(co)
    s = lambda x: 2 * (x - lo) / (hi - lo) - 1
    want = (L.legval(s(b), ci) - L.legval(s(a), ci)) * (hi - lo) / 2 + shift * (b - a)
    if c['cplx']:
        want = want * (1 - 2j)
    if c['vec']:
        want = want[:, None] * mult
    if c['total']:
        want = want.sum(axis=0)
    A, B = (float(a[0]), float(b[0])) if c['scalar'] else (list(a) if c['top'] else a, b)
    snap = snapshot(A, B)
    args = (shift,) if c['arg'] else ()
    tol = 3e-13 * (np.abs(co).sum() + 1) * (hi - lo) * 3
    if gl:
        got = Q.gl_quad(f, A, B, args=args, n=n, sum_intervals=c['total'])
    else:
        got, err = Q.gk_quad(f, A, B, args=args, n=n, sum_intervals=c['total'])
        # the error estimate is the difference to the embedded Gauss rule
        coarse = Q.gl_quad(f, A, B, args=args, n=n, sum_intervals=False) if n in GL else None
        if coarse is None:
            x, wt = L.leggauss(n)
            xx = (b - a)[:, None] / 2 * x + (a + b)[:, None] / 2
            if c['vec']:
                xx = xx[..., None]
                coarse = (np.array([f(v, *args) for v in xx]) * wt[:, None]).sum(axis=1) * ((b - a) / 2)[:, None]
            else:
                coarse = (f(xx, *args) * wt).sum(axis=1) * (b - a) / 2
        per = Q.gk_quad(f, A, B, args=args, n=n)[0]
        e = np.abs(per - coarse)
        close(err, e.sum(axis=0) if c['total'] else e, 0, tol, 'error estimate')
    same_snapshot(snap, A, B)
    close(got, want, 0, tol, '%s n=%d degree %d' % (c['rule'], n, deg))
    label('%s%d' % (c['rule'], n))
    return len(w) > 1 or c['vec'] > 0


@CHECK.test(rec(n=st.integers(0, 27)), quick=60, thorough=60, shards=1)
def tables(c):
    """nodes and weights: inside the interval, ordered, symmetric, positive, those of the Gauss rule; other sizes refused"""
    i = c['n']
    if i < 22:
        n = GL[i]
        x, w = Q.gauss_legendre_abscissae_and_weights(n)
        X, W = L.leggauss(n)
        close(x, X, 0, 3e-15, 'abscissae')
        close(w, W, 0, 3e-15 if n < 64 else 3e-14, 'weights')
    else:
        n = GK[i - 22]
        x, w1, w2 = Q.gauss_kronrod_abscissae_and_weights(n)
        require(len(x) == len(w1) == len(w2) == 2 * n + 1, 'number of points')
        X, W = L.leggauss(n)
        s = np.nonzero(w1)[0]
        close(x[s], X, 0, 3e-15, 'Gauss abscissae')
        close(w1[s], W, 0, 3e-15, 'Gauss weights')
        w = w2
        # nodes added are roots of the Stieltjes polynomial: exactness decides
        for k in range(0, 3 * n + 2 + n % 2):
            ck = np.zeros(k + 1)
            ck[k] = 1
            close(np.sum(w2 * L.legval(x, ck)), 2. if k == 0 else 0., 0, 1e-13, 'moment %d' % k)
    require(np.all(np.diff(x) > 0) and np.all(np.abs(x) < 1) and np.all(w > 0), 'abscissae and weights')
    close(x, -x[::-1], 0, 1e-15, 'symmetry')
    close(w, w[::-1], 0, 1e-15, 'symmetry')
    for m in range(0, 120):
        if m not in GL:
            raises(ValueError, lambda: Q.gauss_legendre_abscissae_and_weights(m), 'n=%d' % m)
        if m not in GK:
            raises(ValueError, lambda: Q.gauss_kronrod_abscissae_and_weights(m), 'n=%d' % m)
    return True


# ---------------------------------------------------------------- Shanks
def ref_shanks(s):
    """iterated Shanks transformation of the exact sequence; smallest relative denominator"""
    cond = 1.
    s = list(s)
    while len(s) >= 3:
        t = []
        for k in range(1, len(s) - 1):
            d = s[k + 1] - 2 * s[k] + s[k - 1]
            if d == 0:
                return s[-1], cond, True
            cond = min(cond, abs(float(d)) / (abs(float(s[k + 1])) + 2 * abs(float(s[k])) + abs(float(s[k - 1]))))
            t.append((s[k + 1] * s[k - 1] - s[k]**2) / d)
        s = t
    return s[-1], cond, False


RAT = st.tuples(st.integers(-40, 40), st.integers(1, 12))
SEQ = st.lists(RAT, min_size=1, max_size=9)


@CHECK.test(rec(rows=st.lists(SEQ, min_size=1, max_size=3), ind=maybe(st.integers(-9, 9)), form=st.sampled_from(['list', 'array', 'int']), geo=st.booleans()), quick=3000, thorough=60000)
def iterated(c):
    """shanks() against exact iterated transformation; rows independent; start index"""
    n = min(len(r) for r in c['rows'])
    if c['form'] == 'int':
        seqs = [[F(a) for a, b in r[:n]] for r in c['rows']]
    elif c['geo']:   # alternating convergent partial sums: well conditioned
        seqs = []
        for r in c['rows']:
            t = F(0)
            s = []
            for k, (a, b) in enumerate(r[:n]):
                t += F((-1)**k * (abs(a) + 41), 40 + (k + 1) * b)
                s.append(t)
            seqs.append(s)
    else:
        seqs = [[F(a, b) for a, b in r[:n]] for r in c['rows']]
    ind = c['ind']
    st_ = 0 if ind is None else max(ind if ind >= 0 else n + ind, 0)
    res = [ref_shanks(s[st_:]) if ind is not None and st_ < n else (s[-1], 1, False) for s in seqs]
    if any(r[1] < 1e-3 for r in res) or (len(seqs) > 1 and any(r[2] for r in res)):
        return False
    vals = [[int(v) if c['form'] == 'int' else float(v) for v in s] for s in seqs]
    if any(r[2] for r in res) and c['form'] != 'int':
        return False
    if any(r[2] for r in res) and n - st_ > 4:
        return False
    arg = vals[0] if len(seqs) == 1 else vals
    snap = snapshot(arg)
    got = Q.shanks(np.array(arg) if c['form'] == 'array' else arg, *(() if ind == 0 else (ind,)))
    same_snapshot(snap, arg)
    want = [float(r[0]) for r in res]
    m = min(r[1] for r in res)
    close(got, want[0] if len(seqs) == 1 else want, 1e-13 / m**3, 1e-13 / m**3 * max(1, max(abs(float(v)) for s in seqs for v in s)), 'shanks')
    if n - st_ > 4:
        label('two or more transformations')
    return n - st_ > 4


@CHECK.test(rec(lim=RAT, terms=st.lists(st.tuples(st.integers(-20, 20), st.integers(-9, 9)), min_size=1, max_size=3, unique_by=lambda t: t[1]), extra=st.integers(0, 3), one=st.booleans()), quick=1500, thorough=30000)
def geometric(c):
    """the limit of a sum of m geometric terms is found from 2m+1 values; exactly one term for shanks()"""
    terms = [(F(a), F(r, 10)) for a, r in c['terms'] if a and r]
    if not terms:
        return False
    lim = F(*c['lim'])
    if c['one']:
        terms = terms[:1]
    m = len(terms)
    seq = [lim + sum(a * r**k for a, r in terms) for k in range(2 * m + 1)]
    fs = [float(v) for v in seq]
    sc = float(abs(lim) + sum(abs(a) for a, r in terms))
    close(Q.shanks(list(fs[:3])), float(ref_shanks(seq[:3])[0]) if ref_shanks(seq[:3])[1] > 1e-4 else Q.shanks(list(fs[:3])), 1e-8, 1e-8 * sc, 'first transformation')
    if m == 1:
        r = terms[0][1]
        d = float(abs(terms[0][0]) * (1 - r)**2)
        close(Q.shanks(list(fs)), float(lim), 0, 1e-13 * sc * sc / d, 'limit of a geometric sequence')
        close(Q.shanks(list(fs), -3), float(lim), 0, 1e-13 * sc * sc / d, 'limit of a geometric sequence')
    # Wynn table against the exact one
    T = wynn(seq)
    if T is None:
        return False
    got = Q.shanks_table(fs)
    if len(got) != len(T):
        return False
    big = max(abs(float(v)) for row in T for v in row) + 1
    if big > 1e3:
        return False
    for a, b in zip(got, T):
        close(a, [float(v) for v in b], 1e-10 * big**2, 1e-10 * big**2, 'table')
    close(got[-1][-1], float(lim), 0, 1e-10 * big**2, 'limit of %d geometric terms' % m)
    return m > 1


def wynn(s):
    """epsilon table of the exact sequence: row i holds eps_1..eps_(i+1) ending at s[i+1]"""
    n = len(s)
    eps = {}
    for k in range(n):
        eps[-1, k], eps[0, k] = F(0), F(s[k])
    stop = n - 1 - ((n - 1) & 1)
    T = []
    for i in range(stop):
        row = []
        for j in range(1, i + 2):
            k = i + 1 - j
            d = eps[j - 1, k + 1] - eps[j - 1, k]
            if d == 0:
                return None
            eps[j, k] = eps[j - 2, k + 1] + 1 / d
            row.append(eps[j, k])
        T.append(row)
    return T


@CHECK.test(rec(seq=st.lists(RAT, min_size=0, max_size=10), geo=st.booleans(), cut=st.integers(2, 9), rnd=st.booleans()), quick=2000, thorough=40000)
def table(c):
    """shanks_table against the exact epsilon algorithm; extending a table equals computing it at once"""
    if len(c['seq']) < 2:
        raises(ValueError, lambda: Q.shanks_table([float(a) / b for a, b in c['seq']]), 'short sequence')
        return False
    s, t = [], F(0)
    for k, (a, b) in enumerate(c['seq']):
        t = t + F((-1)**k * (abs(a) + 41), 40 + (k + 1) * b) if c['geo'] else F(a, b)
        s.append(t)
    T = wynn(s)
    if T is None:
        return False
    fs = [float(v) for v in s]
    snap = snapshot(fs)
    got = Q.shanks_table(fs, randomized=c['rnd'])
    same_snapshot(snap, fs)
    big = max([abs(float(v)) for row in T for v in row] + [1])
    if big > 3e3:
        return False
    require([len(r) for r in got] == [len(r) for r in T], 'shape of the table')
    for a, b in zip(got, T):
        close(a, [float(v) for v in b], 1e-11 * big**2, 1e-11 * big**2, 'table')
    for i, row in enumerate(got):   # the epsilon recursion between the entries returned
        for j, v in enumerate(row):
            low = 0. if j == 0 else fs[i] if j == 1 else got[i - 1][j - 2]
            dif = fs[i + 1] - fs[i] if j == 0 else row[j - 1] - got[i - 1][j - 1]
            close(v, low + 1 / dif, 1e-12, 1e-12, 'entry %d of row %d' % (j, i))
    cut = min(c['cut'], len(fs))
    part = Q.shanks_table(fs[:cut])
    full = Q.shanks_table(fs, part)
    if len(fs) > 2 and part:
        require(full is part, 'table not extended in place')
    require(full == got, 'extended table differs')
    return len(T) > 2
