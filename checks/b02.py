"""B02: moving vehicles against the kinematics they document; closed form beam functions against their equations.

Kinematics, for a window of length L that starts at x0: an axle at xt = x + offset is at
    v > 0:  x0 + xt + v*(t - t0)          v < 0:  x0 + L - xt + v*(t - t0)
and loads the beam while it is between x0 and x0 + L.
"""
from harness import *
import warnings
import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt
from geotecha.beam_on_foundation import specbeam as sb
from geotecha.beam_on_foundation.specbeam import MovingPointLoads
warnings.simplefilter('ignore')

CHECK = Check('B02', rule='an offset, start time, start position or negative velocity is involved (vehicles); the load moves (shapes); the curve is not flat (transitions)', assumptions=['undamped beams below the critical velocity; damped beams at any velocity ratio up to 4', 'reverse curves no steeper than 45 degrees along the chord (two quarter circles)'])

VEH = dict(x=st.lists(num(-30, 0), min_size=1, max_size=5), pseed=st.integers(0, 9999), off=st.one_of(st.just(0.), num(-9, 9)), v=logu(.05, 200), neg=st.booleans(), L=logu(.5, 300), t0=st.one_of(st.just(0.), num(-8, 8)), x0=st.one_of(st.just(0.), num(-20, 20)))


def vehicle(c):
    p = np.random.RandomState(c['pseed']).choice([-3.5, .25, 1., 7., 120.], len(c['x']))
    return p, (-1. if c['neg'] else 1.) * c['v']


def position(c, v, t, xt=None, L=None, t0=None, x0=None):
    xt = np.array(c['x']) + c['off'] if xt is None else xt
    L = c['L'] if L is None else L
    t0 = c['t0'] if t0 is None else t0
    x0 = c['x0'] if x0 is None else x0
    return x0 + xt + v * (t - t0) if v > 0 else x0 + L - xt + v * (t - t0)


def special(c):
    return bool(c['neg'] or c['off'] or c['t0'] or c['x0'])


OPS = st.lists(st.tuples(st.sampled_from(['loads', 'loads', 'axles', 'pass', 'passbeam', 'convert', 'setv', 'convert_args']), num(-.4, 1.4), num(-5, 5), st.integers(0, 9)), min_size=1, max_size=8)


@CHECK.test(rec(ops=OPS, kw=st.booleans(), **VEH), quick=1500, thorough=40000)
def history(c):
    """any sequence of questions to one vehicle: each answer is that of the kinematic model, and stays as it was given"""
    p, v = vehicle(c)
    xa, pa = np.array(c['x']), np.array(p)
    keep = xa.copy(), pa.copy()
    m = MovingPointLoads(xa if c['kw'] else list(xa), pa if c['kw'] else list(pa), offset=c['off'], v=v, L=c['L'], t0=c['t0'], x0=c['x0'])
    given = []
    L, t0, x0 = c['L'], c['t0'], c['x0']
    xt = np.array(c['x']) + c['off']
    sc = abs(xt).max() + L + abs(x0)
    for op, a, b, k in c['ops']:
        i = k % len(xt)
        # a time at which axle i is at fraction a of the window
        tau = t0 + ((a * L - xt[i]) / v if v > 0 else ((a - 1) * L + xt[i]) / v)
        ssc = sc + abs(v) * abs(tau - t0) + abs(v * t0)
        if op == 'loads':
            x, q = m.point_loads_on_beam(tau)
            want = position(c, v, tau)
            close(x, want, 1e-10, 0, 'axle positions at t=%g' % tau, scale=ssc)
            edge = np.minimum(abs(want - x0), abs(want - x0 - L)) < 1e-9 * ssc
            on = (want > x0) & (want < x0 + L)
            require(np.all((np.asarray(q) == np.where(on, p, 0.)) | edge), 'loads at t=%r are %r, axles are at %r, window %r to %r' % (tau, q, want, x0, x0 + L))
            label('on beam' if any(on) else 'none on beam')
            given.append((x, np.array(x)))
            given.append((q, np.array(q)))
        elif op == 'axles':
            w, tt = (b, a) if k < 8 else (0, a)
            x = m.axle_positions(t=tau, v0=w, t0=tt, x0=a)
            close(x, a + (-xt if w < 0 else xt) + w * (tau - tt), 1e-10, 0, 'axle positions', scale=ssc + abs(w) * (abs(tau) + 1))
            given.append((x, np.array(x)))
        elif op == 'pass':
            if abs(b) < 1e-3:
                continue
            t = m.time_axles_pass_point(a * L, v0=b, t0=a, x0=k)
            for j in range(len(xt)):
                close(m.axle_positions(t=t[j], v0=b, t0=a, x0=k)[j], a * L, 1e-9, 0, 'position of axle %d when it passes the point' % j, scale=sc + 10 + abs(b) * (abs(t[j]) + 1))
            given.append((t, np.array(t)))
        elif op == 'passbeam':
            pt = x0 + a * L
            t = m.time_axles_pass_beam_point(pt)
            for j in range(len(xt)):
                close(m.point_loads_on_beam(t[j])[0][j], pt, 1e-9, 0, 'position of axle %d when it passes the beam point' % j, scale=ssc + abs(v) * abs(t[j]))
                if 1e-6 < a < 1 - 1e-6:
                    require(m.point_loads_on_beam(t[j])[1][j] == p[j], 'axle %d does not load the beam when it passes %r' % (j, pt))
            given.append((t, np.array(t)))
        elif op in ('convert', 'convert_args'):
            kw = {}
            if op == 'convert_args':
                kw = dict([('v', b or 1.), ('L', abs(a) + .1), ('t0', a), ('x0', b)][j] for j in range(4) if (k + 1) >> j & 1)
                if abs(kw.get('v', 1)) < 1e-3:
                    kw['v'] = 1e-3
            V, LL, T0, X0 = kw.get('v', v), kw.get('L', L), kw.get('t0', t0), kw.get('x0', x0)
            pl, op_ = m.convert_to_specbeam(**kw)
            require(len(pl) == len(op_) == len(xt), 'one load history for each axle')
            s2 = sc + LL + abs(X0) + abs(V * T0) + 1
            for j in range(len(xt)):
                w, ph = op_[j]
                tt = np.asarray(pl[j].x, float)
                close(pl[j].y, [0, p[j], p[j], 0], 0, 0, 'load history')
                for q, at in ((0, X0 if V > 0 else X0 + LL), (2, X0 + LL if V > 0 else X0)):
                    require(tt[q] == tt[q + 1], 'load appears and disappears at once')
                    close(w * tt[q] + ph, at, 1e-9, 0, 'axle %d %s the beam at' % (j, 'enters' if q == 0 else 'leaves'), scale=s2 + abs(V * tt[q]))
                require(tt[0] < tt[2], 'enters before it leaves')
                close(w, V, 1e-13, 0, 'velocity')
                close(w * tau + ph, position(c, V, tau, xt, LL, T0, X0)[j], 1e-9, 0, 'position from omega and phase', scale=s2 + abs(V) * abs(tau))
        elif op == 'setv':
            if abs(b) < 1e-2:
                continue
            v = b
            m.v = v
            for j in range(len(xt)):
                s2 = sc + abs(v) * (abs(m.start_time[j]) + abs(t0))
                close(position(c, v, m.start_time[j])[j], x0 if v > 0 else x0 + L, 1e-9, 0, 'position at start time', scale=s2)
                close(position(c, v, m.end_time[j])[j], x0 + L if v > 0 else x0, 1e-9, 0, 'position at end time', scale=s2 + L)
    for a, b in given:
        require(np.array_equal(a, b), 'an answer given earlier changed: %r became %r' % (b, a))
    require(np.array_equal(xa, keep[0]) and np.array_equal(pa, keep[1]) and np.array_equal(m.x, xa) and np.array_equal(m.p, pa), 'vehicle changed')
    close(m.xt, xt, 1e-14, 1e-14, 'transformed positions')
    return special(c)


@CHECK.test(rec(withv=st.booleans(), withL=st.booleans(), zero=st.booleans(), **VEH), quick=200, thorough=3000)
def incomplete(c):
    """velocity and length may be left to the individual questions; a vehicle at rest cannot be converted"""
    p, v = vehicle(c)
    kw = {}
    if c['withv']:
        kw['v'] = v
    if c['withL']:
        kw['L'] = c['L']
    m = MovingPointLoads(c['x'], p, offset=c['off'], t0=c['t0'], x0=c['x0'], **kw)
    pl, op = m.convert_to_specbeam(v=v, L=c['L'])
    full = MovingPointLoads(c['x'], p, offset=c['off'], t0=c['t0'], x0=c['x0'], v=v, L=c['L'])
    pl2, op2 = full.convert_to_specbeam()
    require(op == op2 and all(np.array_equal(a.x, b.x) and np.array_equal(a.y, b.y) for a, b in zip(pl, pl2)), 'conversion with and without v, L given at first')
    xt = np.array(c['x']) + c['off']
    close(m.axle_positions(t=3., v0=v, t0=1., x0=2.), 2 + (xt if v > 0 else -xt) + v * 2, 1e-12, 1e-12, 'positions', scale=50 + 2 * abs(v))
    if c['zero']:
        raises(ValueError, lambda: m.convert_to_specbeam(v=0, L=c['L']), 'vehicle at rest')
    ax = m.plot_specbeam_PolyLines(v=v, L=c['L'], t0=c['t0'], x0=c['x0'])
    try:
        lines = ax.get_lines()
        require(len(lines) == len(xt), 'one line for each axle')
        for l, q in zip(lines, pl2):
            require(np.array_equal(l.get_xdata(), q.x) and np.array_equal(l.get_ydata(), q.y), 'plotted load history %r, axle is on the beam %r' % (l.get_xdata(), q.x))
    finally:
        plt.close('all')
    return special(c)


# ---------------------------------------------------------------- infinite beam
def green(alp, bet, s):
    """w'''' + 4 alp**2 w'' - 8 alp bet w' + 4 w = 8 delta(s) by residues"""
    g = np.roots([1., 0, 4 * alp ** 2, -8 * alp * bet, 4.])
    for _ in range(3):
        g = g - (g ** 4 + 4 * alp ** 2 * g ** 2 - 8 * alp * bet * g + 4) / (4 * g ** 3 + 8 * alp ** 2 * g - 8 * alp * bet)
    d = 4 * g ** 3 + 8 * alp ** 2 * g - 8 * alp * bet
    s = np.asarray(s, float)
    w = np.zeros(s.shape, complex)
    for gi, di in zip(g, d):
        if gi.real < 0:
            w += np.where(s >= 0, np.exp(np.minimum((gi * s).real, 0) + 1j * (gi * s).imag) / di, 0)
        else:
            w -= np.where(s < 0, np.exp(np.minimum((gi * s).real, 0) + 1j * (gi * s).imag) / di, 0)
    return 8 * w.real


MOV = dict(alp=st.one_of(st.just(0.), num(.01, .93), num(.93, 1.3), num(1.3, 4)), bet=st.one_of(st.just(0.), num(.03, .99), num(1, 3)))


def inside(c):
    if c['bet'] == 0 and c['alp'] > .93:
        c['bet'] = .05
    a, b = c['alp'], c['bet']
    g = np.roots([1., 0, 4 * a ** 2, -8 * a * b, 4.])
    gap = min(abs(x - y) for i, x in enumerate(g) for y in g[:i])
    return gap > 3e-2 and sum(g.real < -1e-6) == 2 and sum(g.real > 1e-6) == 2


@CHECK.test(rec(smin=num(.2, 12), smax=num(.2, 12), npts=st.integers(5, 400), **MOV), quick=800, thorough=25000)
def infinite_beam(c):
    """deflection around a moving load on an infinite damped beam"""
    if not inside(c):
        return False
    s, w = sb.moving_load_on_beam_on_elastic_foundation(c['alp'], c['bet'], slim=(-c['smin'], c['smax']), npts=c['npts'])
    close(np.real(s), np.linspace(-c['smin'], c['smax'], c['npts']), 1e-12, 1e-12, 'distances')
    want = green(c['alp'], c['bet'], np.real(s))
    sc = np.max(np.abs(green(c['alp'], c['bet'], np.linspace(-6, 6, 121))))
    close(np.real(w), want, 1e-7, 0, 'deflection for alp=%r bet=%r' % (c['alp'], c['bet']), scale=sc)
    close(np.imag(w), 0 * want, 1e-7, 0, 'imaginary part', scale=sc)
    if c['alp'] == 0:
        close(np.real(w), sb.static_point_load_shape(np.real(s), 1.), 1e-9, 1e-9, 'load at rest gives the static shape')
        label('static')
    return c['alp'] > 0


@CHECK.test(rec(k=logu(.05, 30), ref=st.booleans(), **MOV), quick=400, thorough=8000)
def amplification(c):
    """largest deflection relative to the static deflection on the reference foundation"""
    k = c['k'] if c['ref'] else 1.
    a, b = c['alp'], c['bet']
    e = dict(alp=a / k ** .25, bet=b / k ** .5)
    if not inside(e):
        return False
    b = e['bet'] * k ** .5
    lo = np.max(green(e['alp'], e['bet'], np.linspace(-5.9, 5.9, 6001))) * k ** -.75
    hi = np.max(green(e['alp'], e['bet'], np.linspace(-20, 20, 20001))) * k ** -.75
    for name, got in [('DAFrelative', sb.DAFrelative(a, b, k)), ('DAFinfinite', sb.DAFinfinite(a, b, k))] + ([('DAFinfinite', sb.DAFinfinite(a, b))] if k == 1 else []):
        require(lo - 2e-3 * abs(lo) <= got <= hi + 1e-3 * abs(hi), '%s(%r, %r, %r) = %r, largest deflection %r' % (name, a, b, k, got, lo))
    if a == 0:
        close(sb.DAFinfinite(a, b, k), k ** -.75, 1e-9, 0, 'static deflection on a foundation %g times as stiff' % k)
    return a > 0


@CHECK.test(rec(L=logu(.05, 40), xc=num(-20, 20), s=st.lists(num(-9, 9), min_size=1, max_size=8), loads=st.lists(st.tuples(num(-20, 20), num(-3, 3)), max_size=5), lim=num(.5, 30), n=st.integers(2, 60), ws=num(.1, 5)), quick=500, thorough=15000)
def static_shapes(c):
    """static point load shape solves 4*w/L**4 + w'''' = 0 with zero slope and unit deflection under the load; several loads superpose"""
    L, xc = c['L'], c['xc']
    x = xc + L * np.array(c['s'])
    f = sb.point_load_static_defl_shape_function(x, L, xc)
    # decaying solution: real part of (1-i) exp(-(1+i)... ) written with complex exponentials
    u = np.abs(np.array(c['s']))
    want = np.real((1 - 1j) * np.exp((-1 + 1j) * u))
    close(f, want, 1e-9, 1e-9, 'static shape')
    close(sb.static_point_load_shape(x - xc, L), want, 1e-9, 1e-9, 'static shape')
    close(sb.point_load_static_defl_shape_function(xc, L, xc), 1., 1e-12, 0, 'deflection under the load')
    close(sb.point_load_static_defl_shape_function(x[0] - xc, L), want[0], 1e-9, 1e-9, 'load at the origin')
    h = L * 1e-4
    close((sb.point_load_static_defl_shape_function(xc + h, L, xc) - 1) / (h / L), 0, 0, 1e-3, 'slope under the load')
    xs, w = sb.multi_static([a for a, b in c['loads']], [b for a, b in c['loads']], wsingle=c['ws'], xlim=(-c['lim'], c['lim'] * 2), n=c['n'], L=L)
    close(xs, np.linspace(-c['lim'], 2 * c['lim'], c['n']), 1e-12, 1e-12, 'x')
    ref = sum((b * np.real((1 - 1j) * np.exp((-1 + 1j) * np.abs(xs - a) / L)) for a, b in c['loads']), 0 * xs)
    close(w, c['ws'] * ref, 1e-9, 1e-9, 'deflection under several loads')
    return True


@CHECK.test(rec(a=num(-5, 5), b=logu(.01, 30), neg=st.booleans(), u=st.lists(num(-3, 3), min_size=1, max_size=6)), quick=500, thorough=15000)
def tanh_transition(c):
    """smooth step centred on a, its inverse, and the smoothing factor that takes it through a point"""
    a, b = c['a'], -c['b'] if c['neg'] else c['b']
    u = np.array(c['u'])
    x = a + b * u
    y = sb.tanhtran(x, a, b)
    close(y, 1 / (1 + np.exp(-2 * u)), 1e-8, 1e-9, 'transition')
    close(sb.tanhtran(a, a, b), .5, 1e-12, 0, 'half way at a')
    close(sb.tanhtrani(y, a, b), x, 1e-7, 1e-7, 'inverse', scale=abs(a) + abs(b) * 3)
    close(sb.tanhtran(sb.tanhtrani(y, a, b), a, b), y, 1e-8, 1e-9, 'there and back')
    for i in range(len(u)):
        if abs(u[i]) > .05:
            bb = sb.tanhtranib(x[i], y[i], a)
            close(bb, b, 1e-6 + 1e-10 * (abs(a) + 1) / abs(b), 0, 'smoothing factor', scale=abs(b))
            close(sb.tanhtran(x[i], a, bb), y[i], 1e-7, 1e-7, 'curve through the point')
    return a != .5


@CHECK.test(rec(x1=num(-9, 9), y1=num(-9, 9), Lx=logu(.1, 20), back=st.booleans(), h=st.one_of(num(-.99, .99), st.just(0.), st.just(1.), st.just(-1.)), s=st.lists(num(-.5, 1.5), min_size=1, max_size=9), ints=st.booleans(), scalar=st.booleans()), quick=700, thorough=15000)
def reverse_curve(c):
    """level, then an arc tangent to it, then an arc that meets the second level tangentially, whichever end is named first"""
    xa, L, h = c['x1'], c['Lx'], c['h']
    ya = c['y1']
    if c['ints']:
        xa, L = float(round(xa)), float(max(1, round(L)))
    xb, yb = xa + L, ya + h * L
    x = xa + np.array(c['s']) * L
    if c['ints']:
        x = np.round(x).astype(int)
    if c['scalar']:
        x = x[:1]
    args = (xb, yb, xa, ya) if c['back'] else (xa, ya, xb, yb)
    xin = (int(x[0]) if c['ints'] else float(x[0])) if c['scalar'] else x
    y = np.asarray(sb.reverse_curve_transition(xin, *args), float)
    require(y.shape == (len(x),), 'one value for each x')
    if ya == yb:
        require(np.all(y == ya), 'level')
        return False
    sg = np.sign(yb - ya)
    H = abs(yb - ya)
    L = xb - xa
    R = (L * L + H * H) / (4 * H)
    u = np.asarray(x, float) - xa
    left = R - np.sqrt(np.maximum(R * R - np.clip(u, 0, L / 2) ** 2, 0))
    right = H - R + np.sqrt(np.maximum(R * R - np.clip(L - u, 0, L / 2) ** 2, 0))
    want = ya + sg * np.where(u <= 0, 0, np.where(u >= L, H, np.where(u < L / 2, left, right)))
    # at 45 degrees the arcs are vertical in the middle
    tol = 1e-7 if abs(h) < 1 else 2e-6
    if abs(h) == 1:
        ok = abs(u - L / 2) > 1e-6 * L
        y, want = y[ok], want[ok]
    close(y, want, tol, tol, 'transition curve from (%r, %r) to (%r, %r)' % args, scale=H + abs(ya))
    if abs(xb - xa) > 0 and c['scalar']:
        raises(ValueError, lambda: sb.reverse_curve_transition(xin, xa, ya, xa, yb), 'vertical transition')
    return True


LIM = maybe(st.tuples(num(-40, 0), num(1, 200)))


@CHECK.test(rec(t=num(-3, 9), k=st.lists(st.integers(0, 99), min_size=1, max_size=3), tf=num(.1, 5), w=num(-6, 6), xlim=LIM, ylim=LIM, own=st.booleans(), **VEH), quick=60, thorough=800)
def pictures(c):
    """one arrow for each axle, from the load's magnitude down to its place on the axis; an animation shows the same at its frames' times"""
    p, v = vehicle(c)
    m = MovingPointLoads(c['x'], p, offset=c['off'])
    xt = np.array(c['x']) + c['off']
    where = lambda t: c['x0'] + (-xt if c['w'] < 0 else xt) + c['w'] * (t - c['t0'])
    lim = [None if q is None else tuple(q) for q in (c['xlim'], c['ylim'])]
    try:
        given = plt.figure().add_subplot(1, 1, 1) if c['own'] else None
        ax = m.plotme(given, c['t'], c['w'], c['t0'], c['x0'], *lim)
        require(given is None or ax is given, 'drawn on the given axes')
        ann = [q for q in ax.get_children() if isinstance(q, matplotlib.text.Annotation)]
        require(len(ann) == len(xt), 'an arrow for each axle')
        for a, x, q in zip(ann, where(c['t']), p):
            close(a.xy, (x, 0), 1e-12, 1e-12, 'arrow head', scale=100 + abs(c['w']) * 20)
            close(a.xyann, (x, q), 1e-12, 1e-12, 'arrow tail', scale=100 + abs(c['w']) * 20)
        tf = c['t0'] + c['tf']
        ani = m.animateme(c['x0'], c['t0'], tf, c['w'], *lim)
        ax2 = plt.gcf().axes[0]
        for q in (ax, ax2):
            for got, want in ((q.get_xlim(), lim[0]), (q.get_ylim(), lim[1])):
                require(want is None or tuple(got) == want, 'axis limits %r, asked for %r' % (got, want))
        frames = list(ani.new_frame_seq())
        close(frames, np.linspace(c['t0'], tf, len(frames)), 1e-12, 1e-12, 'times of the frames')
        require(frames[0] == c['t0'] and frames[-1] == tf, 'first and last frame')
        for k in c['k']:
            t = frames[k % len(frames)]
            art = ani._func(t)
            ann = [q for q in art if isinstance(q, matplotlib.text.Annotation)]
            require(len(ann) == len(xt), 'an arrow for each axle in a frame')
            for a, x, q in zip(ann, where(t), p):
                close(a.xy, (x, 0), 1e-12, 1e-12, 'arrow head in a frame', scale=100 + abs(c['w']) * 20)
                close(a.xyann, (x, q), 1e-12, 1e-12, 'arrow tail in a frame', scale=100 + abs(c['w']) * 20)
            texts = [q.get_text() for q in art if isinstance(q, matplotlib.text.Text) and not isinstance(q, matplotlib.text.Annotation)]
            require(any('%.1f' % t in q for q in texts), 'time of the frame %r: %r' % (t, texts))
        ani._draw_was_started = True
    finally:
        plt.close('all')
    return True


SPAN = st.tuples(num(-50, 50), logu(.01, 100), st.booleans())


@CHECK.test(rec(a=SPAN, b=SPAN), quick=150, thorough=2000)
def aligned(c):
    """two axes with their zeros at one height: nothing that was visible is lost, both are zoomed out alike"""
    try:
        f = plt.figure()
        axs = [f.add_subplot(1, 2, 1), f.add_subplot(1, 2, 2)]
        old = []
        for ax, (lo, d, z) in zip(axs, (c['a'], c['b'])):
            lo = -d * (abs(lo) / 50) if z else lo
            ax.set_ylim(lo, lo + d)
            old.append(ax.get_ylim())
        sb.align_yaxis(*axs)
        new = [ax.get_ylim() for ax in axs]
    finally:
        plt.close('all')
    zero = [-a / (b - a) for a, b in new]
    close(zero[0], zero[1], 1e-9, 1e-9, 'height of zero', scale=1 + abs(zero[0]))
    zoom = [(n[1] - n[0]) / (o[1] - o[0]) for n, o in zip(new, old)]
    close(zoom[0], zoom[1], 1e-9, 0, 'zoom', scale=zoom[0])
    for n, o in zip(new, old):
        e = 1e-9 * (n[1] - n[0])
        require(n[0] <= o[0] + e and n[1] >= o[1] - e, 'limits %r became %r' % (o, n))
    return old[0] != old[1]
