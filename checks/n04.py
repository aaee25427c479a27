"""N04: polygon and polyhedron geometry against exact triangulation."""
from harness import *
from fractions import Fraction as F
import sympy
import geotecha.mathematics.geometry as G

CHECK = Check('N04', rule='the polygon is concave or out of the xy plane; the polyhedron is rotated',
              assumptions=['simple planar polygons; polyhedra with planar faces', 'coordinates within about a hundred times the size of the shape', 'the value returned as second moment of area is per unit area, as the unit tests have it'])


# ---------------------------------------------------------------- polygons in (u, v): exact triangles
def star(c):
    """polygon seen from the origin: increasing angle, any radius"""
    n = len(c['r'])
    p = []
    for k, (r, w) in enumerate(zip(c['r'], c['w'])):
        a = 2 * math.pi * (k + (.4 if n == 3 else .8) * w) / n
        p.append((F(round(r * math.cos(a) * 64), 64), F(round(r * math.sin(a) * 64), 64)))
    o = (F(0), F(0))
    return p, [(o, p[i], p[(i + 1) % n]) for i in range(n)]


def comb(c):
    """polygon between an upper and a lower chain over the same x values, all at quarters"""
    n = len(c['r'])
    xs = [F(0)]
    for w in c['w'][:-1]:
        xs.append(xs[-1] + F(round(4 * w) + 1, 4))
    lo = [F(round(8 * w), 8) - 1 for w in c['w'][::-1]]
    up = [l + F(round(8 * r) + 1, 8) for l, r in zip(lo, c['r'])]
    p = list(zip(xs, lo)) + list(zip(xs, up))[::-1]
    tri = []
    for i in range(n - 1):
        a, b, d, e = (xs[i], lo[i]), (xs[i + 1], lo[i + 1]), (xs[i + 1], up[i + 1]), (xs[i], up[i])
        tri += [(a, b, d), (a, d, e)]
    return p, tri


def props(tri):
    """area, centroid, central moments (uu, uv, vv)"""
    A = Su = Sv = Muu = Muv = Mvv = F(0)
    for (a, b, c) in tri:
        t = ((b[0] - a[0]) * (c[1] - a[1]) - (c[0] - a[0]) * (b[1] - a[1])) / 2
        A += t
        su, sv = a[0] + b[0] + c[0], a[1] + b[1] + c[1]
        Su += t * su / 3
        Sv += t * sv / 3
        Muu += t * (su * su + a[0]**2 + b[0]**2 + c[0]**2) / 12
        Mvv += t * (sv * sv + a[1]**2 + b[1]**2 + c[1]**2) / 12
        Muv += t * (su * sv + a[0] * a[1] + b[0] * b[1] + c[0] * c[1]) / 12
    if A <= 0:
        return F(0), F(0), F(0), F(0), F(0), F(0)
    cu, cv = Su / A, Sv / A
    return A, cu, cv, Muu - A * cu * cu, Muv - A * cu * cv, Mvv - A * cv * cv


def rotation(r):
    kind, a, b, g = r
    Rz = lambda t: np.array([[math.cos(t), -math.sin(t), 0], [math.sin(t), math.cos(t), 0], [0, 0, 1]])
    Rx = lambda t: np.array([[1, 0, 0], [0, math.cos(t), -math.sin(t)], [0, math.sin(t), math.cos(t)]])
    Ry = lambda t: np.array([[math.cos(t), 0, math.sin(t)], [0, 1, 0], [-math.sin(t), 0, math.cos(t)]])
    if kind == 'none':
        return np.eye(3)
    if kind == 'flip':
        return np.diag([1., -1., -1.])
    if kind == 'swap':   # exact permutations
        P = np.eye(3)[[(i + int(a * 3)) % 3 for i in range(3)]]
        return P if b < .5 else -P[::-1] if np.linalg.det(-P[::-1]) > 0 else P[::-1]
    if kind == 'quarter':
        return Rz(math.pi / 2 * int(a * 4)).dot(Rx(math.pi / 2 * int(b * 4))).dot(Ry(math.pi / 2 * int(g * 4)))
    if kind == 'vertical':
        return Rz(2 * math.pi * a).dot(Rx(math.pi / 2))
    if kind == 'tilt':
        return Rx(1e-5 * (a + .1)).dot(Rz(2 * math.pi * g))
    return Rz(2 * math.pi * a).dot(Rx(2 * math.pi * b)).dot(Ry(2 * math.pi * g))


ROT = st.tuples(st.sampled_from(['any', 'none', 'flip', 'swap', 'quarter', 'vertical', 'tilt', 'any']), num(0, .999), num(0, .999), num(0, .999))
POLY = rec(kind=st.sampled_from(['star', 'star', 'comb']), r=st.lists(num(.3, 2), min_size=3, max_size=9), w=st.lists(frac(), min_size=9, max_size=9))
OFF = st.tuples(num(-5, 5), num(-5, 5), num(-5, 5))


def polygon(c):
    c = dict(c, w=c['w'][:len(c['r'])])
    p, tri = star(c) if c['kind'] == 'star' else comb(c)
    if any((b[0] - a[0]) * (d[1] - a[1]) <= (b[1] - a[1]) * (d[0] - a[0]) for a, b, d in tri):
        return p, []   # not a simple polygon
    return p, tri


def concave(p):
    n = len(p)
    return any((p[i][0] - p[i - 1][0]) * (p[(i + 1) % n][1] - p[i][1]) < (p[i][1] - p[i - 1][1]) * (p[(i + 1) % n][0] - p[i][0]) for i in range(n))


@CHECK.test(rec(poly=POLY, rot=ROT, off=OFF, scale=st.sampled_from([1., 1., .01, 100.]), start=st.integers(0, 17), back=st.booleans(), two=st.booleans(), lst=st.booleans()), quick=4000, thorough=80000)
def polygons(c):
    """area, normal, plane, centroid, second moments of any planar polygon"""
    p, tri = polygon(c['poly'])
    A, cu, cv, Muu, Muv, Mvv = props(tri)
    if A < F(1, 20) or any(p[i] == p[i - 1] for i in range(len(p))):
        return False
    k = c['start'] % len(p)
    q = p[k:] + p[:k]
    sgn = 1.
    if c['back']:
        q, sgn = q[::-1], -1.
    sc = c['scale']
    uv = np.array([[float(a), float(b)] for a, b in q]) * sc
    off = np.array(c['off']) * sc
    R = np.eye(3) if c['two'] else rotation(c['rot'])
    if c['two']:
        off[2] = 0.
        pts = uv + off[:2]
    else:
        pts = uv.dot(R[:, :2].T) + off
    e1, e2, nn = R[:, 0], R[:, 1], R[:, 2] * sgn
    arg = pts.tolist() if c['lst'] else pts
    snap = snapshot(arg)
    size = 4. * sc
    big = (size + np.abs(off).max())
    t = 2e-13 * (big / sc)**2   # relative
    n, d = G.eqn_of_plane(arg)
    close(n, nn, 0, t, 'normal')
    mid = off + R[:, :2].dot([float(cu) * sc, float(cv) * sc])
    close(d, -nn.dot(mid), 0, t * big, 'plane constant')
    close(G.polygon_area(arg), float(A) * sc**2, 0, t * sc**2 * 4, 'area')
    close(G.polygon_centroid(arg), mid, 0, t * big * 4, 'centroid')
    m = np.array([float(Muu) * e1[i]**2 + 2 * float(Muv) * e1[i] * e2[i] + float(Mvv) * e2[i]**2 for i in range(3)]) / float(A) * sc**2
    close(G.polygon_2nd_moment_of_area(arg), m, 0, t * big**2 * 8, 'second moment per unit area')
    # coordinates
    x, y, z = G.xyz_from_pts(arg)
    P = pts if not c['two'] else np.column_stack((pts, np.zeros(len(pts))))
    close(np.array([x, y, z]).T, P, 0, 0, 'xyz_from_pts')
    x, y, z = G.xyz_from_pts(arg, True)
    close(np.array([x, y, z]).T, np.vstack((P, P[:1])), 0, 0, 'xyz_from_pts closed')
    same_snapshot(snap, arg)
    label('2d' if c['two'] else c['rot'][0])
    return concave(p) or (not c['two'] and c['rot'][0] != 'none')


# ---------------------------------------------------------------- generated integration code
def mono(tri, i, j):
    """exact integral of x^i y^j over triangles (Gauss rule in Fractions replaced by the simplex formula)"""
    tot = F(0)
    from math import comb as C, factorial as f
    for (a, b, c) in tri:
        t = (b[0] - a[0]) * (c[1] - a[1]) - (c[0] - a[0]) * (b[1] - a[1])
        # expand (l1 a + l2 b + l3 c)^(i, j) in barycentric monomials; integral = 2A p!q!r!/(p+q+r+2)!
        s = F(0)
        for p1 in range(i + 1):
            for p2 in range(i + 1 - p1):
                p3 = i - p1 - p2
                mi = F(f(i), f(p1) * f(p2) * f(p3)) * a[0]**p1 * b[0]**p2 * c[0]**p3
                if not mi:
                    continue
                for q1 in range(j + 1):
                    for q2 in range(j + 1 - q1):
                        q3 = j - q1 - q2
                        mj = F(f(j), f(q1) * f(q2) * f(q3)) * a[1]**q1 * b[1]**q2 * c[1]**q3
                        s += mi * mj * F(f(p1 + q1) * f(p2 + q2) * f(p3 + q3), f(i + j + 2))
        tot += s * t
    return tot


_code = {}


def generated(f, poly):
    key = (str(f), poly)
    if key not in _code:
        ns = {'np': np, 'xyz_from_pts': G.xyz_from_pts, 'eqn_of_plane': G.eqn_of_plane}
        s = (G.integrate_f_over_polygon_code if poly else G.integrate_f_over_polyhedra_code)(f)
        if not poly:   # known finding: this line uses pts before it is assigned
            s = s.replace('    x, y, z = xyz_from_pts(pts,True)\n', '', 1).replace('        (n1', '        x, y, z = xyz_from_pts(pts,True)\n        (n1', 1)
        exec(s, ns)
        _code[key] = (ns['ifxy' if poly else 'ifxyz'], s)
    return _code[key]


@CHECK.test(rec(poly=POLY, terms=st.lists(st.tuples(st.integers(-3, 3), st.integers(0, 2), st.integers(0, 2)), min_size=1, max_size=2), back=st.booleans(), three=st.booleans()), quick=400, thorough=8000)
def polygon_code(c):
    """generated code integrates polynomials over xy polygons exactly; the sign follows the orientation"""
    p, tri = polygon(c['poly'])
    if not tri:
        return False
    x, y = sympy.symbols('x,y')
    f = sum(a * x**i * y**j for a, i, j in c['terms'])
    want = float(sum(a * mono(tri, i, j) for a, i, j in c['terms']))
    q = np.array([[float(a), float(b)] for a, b in p])
    if c['back']:
        q, want = q[::-1], -want
    if c['three']:
        q = np.column_stack((q, np.ones(len(q))))
    sc = float(sum(abs(a) * mono([tuple((abs(u), abs(v)) for u, v in t) for t in [((F(0), F(0)), (F(8), F(0)), (F(8), F(8)))]], i, j) for a, i, j in c['terms']))
    close(generated(f, True)[0](q), want, 1e-12, 1e-13 * (sc + 1), 'integral of %s' % f)
    return concave(p) or c['back']


# ---------------------------------------------------------------- polyhedra
CUBE = np.array([[0, 0, 0], [0, 0, 1], [1, 0, 1], [1, 0, 0], [0, 1, 0], [0, 1, 1], [1, 1, 1], [1, 1, 0]], float)


def solid(c):
    """faces (outward, counter-clockwise) of a prism or pyramid over a polygon, and exact simplices"""
    p, tri = polygon(c['poly'])
    h = F(round(c['h'] * 16), 16)
    sx, sy = F(round(c['shear'][0] * 16), 16), F(round(c['shear'][1] * 16), 16)
    n = len(p)
    z = F(0)
    bot = [(a, b, z) for a, b in p]
    if c['kind'] == 'prism':
        top = [(a + sx, b + sy, h) for a, b in p]
        faces = [bot[::-1], top] + [[bot[i], bot[(i + 1) % n], top[(i + 1) % n], top[i]] for i in range(n)]
        tets = []
        for t in tri:
            a, b, d = [(u, v, z) for u, v in t]
            A, B, D = [(u + sx, v + sy, h) for u, v in t]
            tets += [(a, b, d, D), (a, b, D, B), (a, B, D, A)]
    else:
        apex = (sx, sy, h)
        faces = [bot[::-1]] + [[bot[i], bot[(i + 1) % n], apex] for i in range(n)]
        tets = [tuple((u, v, z) for u, v in t) + (apex,) for t in tri]
    return faces, tets, p


def det(t):
    a, b, c = [[t[k][i] - t[0][i] for i in range(3)] for k in (1, 2, 3)]
    return abs(a[0] * (b[1] * c[2] - b[2] * c[1]) - a[1] * (b[0] * c[2] - b[2] * c[0]) + a[2] * (b[0] * c[1] - b[1] * c[0]))


@CHECK.test(rec(poly=POLY, kind=st.sampled_from(['prism', 'pyramid']), h=num(.25, 3), shear=st.tuples(num(-1, 1), num(-1, 1)), rot=ROT, off=OFF, start=st.integers(0, 9), back=st.booleans()), quick=3000, thorough=60000)
def polyhedra(c):
    """volume of prisms and pyramids, whatever their position; inside out changes the sign"""
    faces, tets, p = solid(c)
    A = props(polygon(c['poly'])[1])[0]
    if A < F(1, 20) or any(p[i] == p[i - 1] for i in range(len(p))):
        return False
    V = float(sum(det(t) for t in tets)) / 6
    R = rotation(c['rot'])
    fs = []
    for f in faces:
        a = np.array([[float(v) for v in q] for q in f])
        a = np.roll(a, c['start'] % len(a), axis=0)
        if c['back']:
            a = a[::-1]
        fs.append(a.dot(R.T) + c['off'])
    nn = min(abs(G.eqn_of_plane(f)[0][0]) for f in fs)
    snap = snapshot(fs)
    got = G.polyhedron_volume(fs)
    same_snapshot(snap, fs)
    close(got, -V if c['back'] else V, 0, 3e-6 if any(1e-9 < abs(G.eqn_of_plane(f)[0][0]) < 1e-4 for f in fs) else 2e-9, 'volume')
    closed = [np.vstack((f, f[:1])) for f in fs]
    close(G.polyhedron_volume([f.tolist() for f in closed]), got, 1e-6, 1e-6, 'faces with the first point repeated')
    label('tiny normal component' if nn < 1e-8 else 'general')
    return c['rot'][0] != 'none'


@CHECK.test(rec(M=st.lists(num(-2, 2), min_size=9, max_size=9), off=OFF), quick=1000, thorough=20000)
def hexahedra(c):
    """make_hexahedron: faces of any parallelepiped close and face outwards"""
    M = np.array(c['M']).reshape(3, 3)
    dv = np.linalg.det(M)
    if abs(dv) < .05:
        return False
    X = CUBE.dot(M.T) + c['off']
    arg = X.tolist()
    faces = G.make_hexahedron(arg)
    require(len(faces) == 6 and all(f.shape == (4, 3) for f in faces), 'faces')
    edges = {}
    for f in faces:
        ids = [int(np.argmin(np.abs(X - q).sum(axis=1))) for q in f]
        require(len(set(ids)) == 4, 'corner used twice')
        for a, b in zip(ids, ids[1:] + ids[:1]):
            require((a, b) not in edges, 'edge used twice in the same direction')
            edges[a, b] = 1
    require(all((b, a) in edges for a, b in edges) and len(edges) == 24, 'faces do not close')
    close(G.polyhedron_volume(faces), dv, 0, 1e-6 if any(1e-9 < abs(G.eqn_of_plane(f)[0][0]) < 1e-4 for f in faces) else 1e-9, 'volume')
    return True


@CHECK.test(rec(r=st.lists(num(.3, 2), min_size=3, max_size=5), w=st.lists(frac(), min_size=9, max_size=9), h=num(.5, 2), term=st.sampled_from([(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 1, 0), (2, 0, 0), (0, 1, 1)]), rot=st.tuples(num(.05, .2), num(.05, .2), num(.05, .2))), quick=60, thorough=1000)
def polyhedron_code(c):
    """generated polyhedron code (with its misplaced first line moved into the loop) integrates polynomials"""
    faces, tets, p = solid(dict(c, poly=dict(kind='star', r=c['r'], w=c['w']), kind='pyramid', shear=(0., 0.)))
    if props(star(dict(r=c['r'], w=c['w'][:len(c['r'])]))[1])[0] < F(1, 10) or any(p[i] == p[i - 1] for i in range(len(p))):
        return False
    R = rotation(('any',) + tuple(c['rot']))
    fs = [np.array([[float(v) for v in q] for q in f]).dot(R.T) for f in faces]
    if min(abs(G.eqn_of_plane(f)[0][0]) for f in fs) < 1e-3:
        return False
    T = [np.array([[float(v) for v in q] for q in t]).dot(R.T) for t in tets]
    i, j, k = c['term']
    # degree-2 rule on tetrahedra: four points
    a, b = (5 + 3 * math.sqrt(5)) / 20, (5 - math.sqrt(5)) / 20
    want = 0.
    for t, q in zip(T, tets):
        v = float(det(q)) / 6
        for m in range(4):
            l = np.full(4, b)
            l[m] = a
            P = l.dot(t)
            want += v / 4 * P[0]**i * P[1]**j * P[2]**k
    x, y, z = sympy.symbols('x,y,z')
    close(generated(x**i * y**j * z**k, False)[0](fs), want, 1e-8, 1e-8, 'integral of x^%d y^%d z^%d' % (i, j, k))
    return True


@CHECK.test(rec(what=st.sampled_from(['polygon code', 'polyhedron code', 'second moment'])), quick=12, thorough=12, shards=1)
def documented(c):
    """documented results; two of them are pinned to something else by the unit tests (known findings)"""
    if c['what'] == 'polyhedron code':
        ns = {'np': np, 'xyz_from_pts': G.xyz_from_pts, 'eqn_of_plane': G.eqn_of_plane}
        exec(G.integrate_f_over_polyhedra_code(sympy.Integer(1)), ns)
        close(ns['ifxyz'](G.make_hexahedron(CUBE)), 1., 1e-12, 0, 'volume')
    elif c['what'] == 'polygon code':
        ns = {'np': np, 'xyz_from_pts': G.xyz_from_pts}
        exec(G.integrate_f_over_polygon_code(sympy.Integer(1)), ns)
        close(ns['ifxy']([[0, 0], [1, 0], [0, 1]]), .5, 1e-12, 0, 'area')
    else:
        close(G.polygon_2nd_moment_of_area([[0, 0], [1, 0], [0, 1]]), [1 / 36., 1 / 36., 0.], 1e-12, 1e-12, 'second moment of area')
    return True


@CHECK.test(rec(v=st.lists(st.tuples(st.sampled_from('xyzfg'), st.integers(0, 1)), min_size=1, max_size=4), names=maybe(st.lists(st.sampled_from('xyzfg'), max_size=3, unique=True))), quick=300, thorough=4000, shards=2)
def names(c):
    """x0 and x1 become slices, other names stay"""
    s = ' + 2*'.join('%s%d' % tuple(v) for v in c['v'])
    ns = 'xyz' if c['names'] is None else c['names']
    want = ' + 2*'.join('%s%s' % (a, ['[:-1]', '[1:]'][i]) if a in ns else '%s%d' % (a, i) for a, i in c['v'])
    got = G.replace_x0_and_x1_with_vect(s) if c['names'] is None else G.replace_x0_and_x1_with_vect(s, c['names'])
    require(got == want, '%r: got %r expected %r' % (s, got, want))
    return len(c['v']) > 1
