"""B04: the study functions for moving loads draw what beam theory gives.

Oracle for the finite beam: modal equations of the simply supported beam, integrated exactly with matrix exponentials.
Oracle for the infinite beam: residues (b02.green)."""
from harness import *
import contextlib, io, os, shutil, tempfile, warnings
from importlib import import_module
import scipy.linalg
import scipy.optimize
import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt
import fort
from geotecha.beam_on_foundation import specbeam as sb
from geotecha.beam_on_foundation import dingetal2012 as dg
B02 = import_module('b02')
warnings.simplefilter('ignore')


def setup():
    fort.speccon()


CHECK = Check('B04', rule='a curve was compared with the theory', setup=setup,
              assumptions=['beams as in the functions (their properties are constants there); few modes'])

E, RHO, L, A, I, K1 = 6.998e9, 2373., 160., .03, 0.00022477900799999998, 800002.6125
F = 1.013e-4 * E * A
LAM = (K1 / (4 * E * I)) ** .25
VCRIT = math.sqrt(2 / RHO / A * math.sqrt(K1 * E * I))
CCRIT = math.sqrt(4 * RHO * A * K1)
WSTAT = F * LAM / (2 * K1)


@contextlib.contextmanager
def scratch():
    """figures and files stay in a directory that is removed"""
    d, old = tempfile.mkdtemp(), os.getcwd()
    keep = matplotlib.rcParams.copy()
    os.chdir(d)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            yield d
    finally:
        os.chdir(old)
        shutil.rmtree(d, ignore_errors=True)
        plt.close('all')
        matplotlib.rcParams.update(keep)


def pl(f, n):
    """2*integral of f*sin(i pi x)*sin(j pi x) for a piecewise linear f given as x, y lists"""
    x, y = [np.asarray(v, float) for v in f]
    g, w = np.polynomial.legendre.leggauss(24)
    out = np.zeros((n, n))
    for a, b, p, q in zip(x, x[1:], y, y[1:]):
        if b > a:
            m = max(1, int(math.ceil((b - a) * n / 4)))
            e = np.linspace(a, b, m + 1)
            for c, d in zip(e, e[1:]):
                s = (c + d) / 2 + (d - c) / 2 * g
                S = np.sin(np.pi * np.outer(np.arange(1, n + 1), s))
                out += (S * (w * (d - c) * (p + (q - p) * (s - a) / (b - a)))) @ S.T
    return out


def history(n, v, mu, k, x, t, EI=E * I, ra=RHO * A, F=F):
    """deflection at x (fractions of L) and times t; the load enters at time zero with velocity v, beam at rest"""
    N = np.arange(1, n + 1)
    Om = N * np.pi * abs(v) / L
    K = np.diag(EI * (N * np.pi / L) ** 4) + pl(k, n)
    C = pl(mu, n)
    sg = np.ones(n) if v > 0 else (-1.) ** (N + 1)
    B = np.zeros((4 * n, 4 * n))
    B[:n, n:2 * n] = np.eye(n)
    B[n:2 * n, :n] = -K / ra
    B[n:2 * n, n:2 * n] = -C / ra
    B[n:2 * n, 2 * n:3 * n] = np.diag(sg * 2 * F / (ra * L))
    B[2 * n:3 * n, 3 * n:] = np.diag(Om)
    B[3 * n:, 2 * n:3 * n] = -np.diag(Om)
    y0 = np.concatenate([np.zeros(3 * n), np.ones(n)])
    te = L / abs(v)
    lam, V = scipy.linalg.eig(B)
    memo = {}

    def step(M, h):
        key = (len(M), round(h, 14))
        if key not in memo:
            memo[key] = scipy.linalg.expm(M * h)
        return memo[key]
    q = np.zeros((n, len(t)))
    free = B[:2 * n, :2 * n]
    y, now, out = y0, 0., False
    for i in np.argsort(t, kind='stable'):
        ti = t[i]
        if ti <= 0:
            continue
        if not out and ti > te:
            y = scipy.linalg.expm(B * (te - now)) @ y
            y, now, out = y[:2 * n], te, True
        y = step(free if out else B, ti - now) @ y
        now = ti
        q[:, i] = y[:n]
    return np.sin(np.pi * np.outer(x, N)) @ q


def amp(alp, bet, kr):
    """bounds of the largest deflection of an infinite beam, None if the roots are too close"""
    c = dict(alp=alp / kr ** .25, bet=bet / kr ** .5)
    a0, b0 = c['alp'], c['bet']
    if not B02.inside(c) or c['bet'] != b0:
        return None
    lo = np.max(B02.green(a0, b0, np.linspace(-5.9, 5.9, 3001))) * kr ** -.75
    hi = np.max(B02.green(a0, b0, np.linspace(-20, 20, 10001))) * kr ** -.75
    return lo - 3e-3 * abs(lo), hi + 2e-3 * abs(hi)


def is_amp(got, alp, bet, kr, what):
    b = amp(alp, bet, kr)
    if b is not None:
        require(b[0] <= got <= b[1], '%s: %r for alpha=%r beta=%r k2/k1=%r, the infinite beam gives %r' % (what, got, alp, bet, kr, b))
    return b is not None


LISTB = st.lists(st.one_of(st.just(0.), num(.03, .9)), min_size=1, max_size=3, unique=True)
LISTA = st.lists(num(.05, .8), min_size=1, max_size=3, unique=True)


@CHECK.test(rec(k=st.lists(logu(.2, 30), min_size=1, max_size=3, unique=True), b=LISTB, a=LISTA, amax=num(.5, 3), n=st.integers(3, 12), own=st.booleans(), top=num(1, 9), at=st.booleans()), quick=100, thorough=900)
def amplification(c):
    """curves of the amplification factor against velocity or stiffness ratio"""
    n = 0
    with scratch():
        ax = plt.figure().add_subplot(1, 1, 1) if c['own'] else None
        keep = repr((c['a'], c['b'], c['k']))
        if c['at']:
            k = np.array(c['k'])
            got = sb.transition_DAF1_at_specific_alp(ax=ax, alphas=c['a'], kratios=k, betas=c['b'], DAFmax=c['top'])
            pairs = [(a, b) for a in c['a'] for b in c['b']]
        else:
            got = sb.transition_DAF1(ax=ax, kratios=c['k'], alpmax=c['amax'], npts=c['n'], betas=c['b'], DAFmax=c['top']).axes[0]
            pairs = [(k, b) for k in c['k'] for b in c['b']]
        require(ax is None or got is ax, 'drawn on the given axes')
        require(repr((c['a'], c['b'], c['k'])) == keep, 'the lists given changed')
        require(tuple(got.get_ylim()) == (0, c['top']), 'axis limit')
        lines = got.get_lines()
        require(len(lines) == len(pairs), 'one line for each pair')
        colours = {}
        for (p, b), l in zip(pairs, lines):
            x, y = l.get_xdata(), l.get_ydata()
            close(x, k if c['at'] else np.linspace(0, c['amax'], c['n']), 1e-12, 1e-12, 'ratios')
            for u, d in zip(x, y):
                n += is_amp(d, *((p, b, u) if c['at'] else (u, b, p)), 'curve')
            colours.setdefault(p, set()).add(l.get_color())
        require(all(len(v) == 1 for v in colours.values()), 'one colour for each group')
        names = [t.get_text() for t in got.get_legend().get_texts()]
        require(len(names) == len(c['b']) + len(c['a' if c['at'] else 'k']) - 1, 'legend %r' % names)
    return n > 0


STUDY = dict(a=LISTA, b=LISTB, n=st.integers(2, 8), nx=st.integers(8, 25), nt=st.integers(4, 20), num=st.booleans())


@CHECK.test(rec(damp=st.sampled_from([0., 0., .1, .2]), w=st.tuples(num(.2, .4), num(.6, .8)), **STUDY), quick=100, thorough=900)
def constant_properties(c):
    """largest deflection in a window of the beam, for velocities and damping ratios"""
    a = sorted(c['a'])
    if c['num']:
        a = [1e-3] + a
    lo, hi = c['w']
    with scratch():
        sb.FIGURE_DAF_constant_prop(nterms=c['n'], alphas=a, betas=c['b'], nt=c['nt'], nx=c['nx'], end_damp=c['damp'], xwindow=(lo, hi), xeval=(.1, .9), numerical_DAF=c['num'])
        ax = plt.figure(plt.get_fignums()[0]).axes[0]
        lines = ax.get_lines()
        require(len(lines) == 2 * len(c['b']), 'two lines for each damping ratio')
        x = np.linspace(.1, .9, c['nx'])
        i0, i1 = [int(np.sum(x < v)) for v in (lo, hi)]
        if min(abs(x - lo).min(), abs(x - hi).min()) < 1e-9:
            return False
        n = 0
        for b, l, inf in zip(c['b'], lines, lines[len(c['b']):]):
            top = []
            for al in a:
                v = VCRIT * al
                d = c['damp']
                mu = b * CCRIT
                prof = ([0, 1], [mu, mu]) if d == 0 else ([0, d, d, 1 - d, 1 - d, 1], [CCRIT, CCRIT, mu, mu, CCRIT, CCRIT])
                t = np.linspace(L / v * .1, L / v * .9, c['nt'])
                w = history(c['n'], v, prof, ([0, 1], [K1, K1]), x, t)
                top.append(w[i0:i1].max())
            want = np.array(top) / (top[0] if c['num'] else WSTAT)
            close(l.get_xdata(), a, 1e-12, 0, 'velocity ratios')
            close(l.get_ydata(), want, 1e-6, 1e-8, 'amplification for beta=%r' % b)
            ua = inf.get_xdata()
            close([ua[0], ua[-1]], [a[0], a[-1]], 1e-12, 0, 'range of the curve for the infinite beam')
            for u, y in list(zip(ua, inf.get_ydata()))[::13]:
                n += is_amp(y, u, b, 1., 'infinite beam')
        return True


@CHECK.test(rec(ext=st.sampled_from([1, 1, 1.3, 2.]), own=st.booleans(), **STUDY), quick=100, thorough=900)
def envelopes(c):
    """largest deflection experienced along the beam"""
    a, b = list(c['a']), list(c['b'])
    with scratch():
        own = plt.figure().add_subplot(1, 1, 1) if c['own'] else None
        ax = sb.FIG_DAF_envelope_vary_beta(ax=own, betas=b, alphas=a, nx=c['nx'], nt=c['nt'], nterms=c['n'], t_extend=c['ext'], numerical_DAF=c['num'])
        require(own is None or ax is own, 'drawn on the given axes')
        require(a == c['a'] and b == c['b'], 'the lists given changed: %r' % a)
        lines = ax.get_lines()
        require(len(lines) == 2 * len(a) * len(b), 'two lines for each pair')
        x = np.linspace(0, 1, c['nx'])

        def env(al, be):
            v = VCRIT * al
            return history(c['n'], v, ([0, 1], [be * CCRIT] * 2), ([0, 1], [K1] * 2), x, np.linspace(0, L / v * c['ext'], c['nt'])).max(axis=1)
        ws = WSTAT
        if c['num']:
            # a load that is practically at rest
            N = np.arange(1, c['n'] + 1)
            ts = np.linspace(0, c['ext'], c['nt'])
            q = 2 * F / L * np.sin(np.pi * np.outer(N, ts)) / (E * I * (N * np.pi / L) ** 4 + K1)[:, None] * (ts <= 1)
            ws = (np.sin(np.pi * np.outer(x, N)) @ q).max(axis=1)[int(c['nx'] * .4):int(c['nx'] * .6)]
            if not len(ws) or ws.max() < 1e-3 * WSTAT:
                return False
            ws = ws.max()
        k = 0
        for al in a:
            for be in b:
                close(lines[k].get_xdata(), x, 1e-12, 1e-12, 'distance')
                close(lines[k].get_ydata(), env(al, be) / ws, 1e-3 if c['num'] else 1e-6, 1e-4 if c['num'] else 1e-8, 'envelope alpha=%r beta=%r' % (al, be))
                is_amp(lines[k + 1].get_ydata()[0], al, be, 1., 'infinite beam')
                k += 2
    return True


@CHECK.test(rec(v=st.lists(num(.004, .03), min_size=1, max_size=2, unique=True), n=st.integers(2, 8), nx=st.integers(3, 20), nt=st.integers(4, 20)), quick=80, thorough=700)
def velocities(c):
    """largest and smallest deflection along a beam for some velocities"""
    with scratch():
        sb.FIGURE_defl_envelope_vary_velocity(velocities_norm=c['v'], nterms=c['n'], nx=c['nx'], nt=c['nt'])
        lines = plt.figure(plt.get_fignums()[0]).axes[0].get_lines()
        require(len(lines) == 2 * len(c['v']), 'two lines for each velocity')
        x = np.linspace(0, 1, c['nx'])
        EI = E * (5.41e-4 * L) ** 2 * A
        k = 97.552 * E * A / L ** 2
        mu = 39.263 / 4 / 2 / 1000 * A * math.sqrt(RHO * E) / L
        for i, v in enumerate(c['v']):
            v = v / math.sqrt(RHO / E)
            w = history(c['n'], v, ([0, 1], [mu] * 2), ([0, 1], [k] * 2), x, np.linspace(0, L / v, c['nt']), EI=EI) * 1000
            for l, q in ((lines[2 * i], w.max(axis=1)), (lines[2 * i + 1], w.min(axis=1))):
                close(l.get_xdata(), x * L, 1e-12, 1e-12, 'distance')
                close(l.get_ydata(), q, 1e-6, 0, 'envelope', scale=np.abs(w).max())
    return True


@CHECK.test(rec(n=st.lists(st.integers(2, 12), min_size=1, max_size=2, unique=True)), quick=40, thorough=100)
def midpoint(c):
    """midpoint deflection against time in the figures after Ding et al and with a step in stiffness"""
    t = np.linspace(0, 4.5, 400)
    EI = E * (5.41e-4 * L) ** 2 * A
    k = 97.552 * E * A / L ** 2
    mu = 39.263 * A / L ** 2 * math.sqrt(RHO * E) * L
    v = .01165 / math.sqrt(RHO / E)
    with scratch():
        for name, prof, f in (('step', ([0, .5, .5, 1], [k, k, .01 * k, .01 * k]), sb.FIGURE_convergence_step_change), ('ding', ([0, 1], [k, k]), sb.FIGURE_verify_against_DingEtAl2012_fig8)):
            plt.close('all')
            f(v_nterms=c['n'])
            lines = plt.figure(plt.get_fignums()[0]).axes[0].get_lines()
            lines = [l for l in lines if len(l.get_xdata()) == 400]
            require(len(lines) == len(c['n']), '%s: one line for each number of terms' % name)
            for n, l in zip(c['n'], lines):
                close(l.get_xdata(), t, 1e-12, 1e-12, 'time')
                w = history(n, v, ([0, 1], [mu] * 2), prof, [.5], t, EI=EI)[0] * 1000
                close(l.get_ydata(), w, 1e-6, 0, '%s with %d terms' % (name, n), scale=max(np.abs(w).max(), 1e-9))
    return True


@CHECK.test(rec(which=st.sampled_from([1, 2]), lt=st.lists(logu(.1, 4), min_size=1, max_size=3, unique=True), a=st.lists(num(.1, .8), min_size=1, max_size=2, unique=True), design=num(.2, .85),
                back=st.sampled_from([(False,), (True,), (False, True), (True, False)]), point=st.sampled_from([None, False, True]), kr=num(1.5, 60), b=st.one_of(st.just(0.), num(.03, .5)),
                ntrans=st.integers(3, 15), dist=st.sampled_from(['linear', 'tanh', 'reverse']), end=num(.005, .1), ninterp=st.integers(2, 9), loads=st.integers(1, 3), gap=num(.005, .05),
                xlim=st.tuples(num(-9, -2), num(2, 9)), nx=st.integers(8, 16), nt=st.integers(5, 12), n=st.integers(2, 6), ext=st.sampled_from([1., 1.2])), quick=32, thorough=500)
def transitions(c):
    """design of the stiffness of a transition zone and the deflections of the beam with it"""
    one = c['which'] == 1
    kr, b, xl, backs = c['kr'], c['b'], c['xlim'], list(c['back'])
    lt, a = list(c['lt']), list(c['a'])
    lc = 1 / LAM / L
    with scratch():
        if c['point'] is None or one:
            plt.figure()                     # an unrelated figure must not matter
        first = (plt.get_fignums() or [0])[-1] + 1
        (sb.transition_zones1 if one else sb.transition_zones2)(
            Lt_Lcs=lt, alphas=a, reverses=backs, xi_Lc=c['point'], kratio=kr, beta=b, alpha_design=c['design'], ntrans=c['ntrans'], DAF_distribution=c['dist'], tanhend=c['end'], xlim=xl,
            nx=c['nx'], nt=c['nt'], t_extend=c['ext'], nterms=c['n'], ninterp=c['ninterp'], nloads=c['loads'], load_spacing=c['gap'], article_formatting=False)
        require(lt == c['lt'] and a == c['a'] and backs == list(c['back']), 'the lists given changed')
        figs = [plt.figure(i) for i in plt.get_fignums() if i >= first]
        require(len(figs) == 2 + bool(c['point']) + (not one), '%d figures, xi_Lc=%r' % (len(figs), c['point']))
        axw, axk = figs[0].axes
        axt = figs[1].axes[0] if c['point'] else None
        axl = figs[2 if c['point'] else 1].axes[0]
        kl, wl, ll = [list(q.get_lines()) for q in (axk, axw, axl)]
        tl = list(axt.get_lines()) if axt else []
        x0 = np.linspace(0, 1, c['ntrans'])
        peak = {}
        for i, r in enumerate(lt):
            if one:
                kl_ = kl.pop(0)
            for j, al in enumerate(a):
                ideal = wl.pop(0)
                des = c['design'] if one else al
                d1, d2 = [sb.DAFinfinite(alp=des, bet=b, kratio=q) for q in (1, kr)]
                if one:
                    xx, yy = np.array(kl_.get_xdata()), np.array(kl_.get_ydata())
                else:                # the stiffness is not drawn, but the amplification that it gives
                    xx, yy = np.array(ideal.get_xdata()), np.array(ideal.get_ydata())
                    close(yy[[0, 1, -2, -1]], [d1, d1, d2, d2], 1e-9, 0, 'amplification at the ends')
                    require(np.all((yy <= d1 * (1 + 1e-9)) & (yy >= d2 * (1 - 1e-9))), 'ideal amplification outside the two beams')
                    yy = np.array([1., 1.] + [scipy.optimize.brentq(lambda q: sb.DAFinfinite(alp=des, bet=b, kratio=q) - d, .9, kr * 1.1, xtol=1e-13, rtol=1e-13) for d in yy[2:-2]] + [kr, kr])
                close(xx, [xl[0]] + list((x0 - .5) * r) + [xl[1]], 1e-9, 1e-9, 'distance of the stiffness')
                close(yy[[0, 1, -2, -1]], [1, 1, kr, kr], 1e-12, 0, 'stiffness at the ends')
                f = dict(linear=x0, tanh=np.tanh((x0 - .5) * 2 * np.arctanh(1 - 2 * c['end'])) / (1 - 2 * c['end']) / 2 + .5).get(c['dist'])
                h = (kr - 1) / 299
                for m, (q, kk) in enumerate(zip(x0[1:-1], yy[2:-2])):
                    up, dn = [sb.DAFinfinite(alp=des, bet=b, kratio=max(1, z)) for z in (kk - h, kk + h)]
                    g = d1 + (d2 - d1) * f[m + 1] if f is not None else float(sb.reverse_curve_transition(np.array([q]), 0, d1, 1, d2)[0])
                    require(dn - 1e-9 <= g <= up + 1e-9, 'stiffness ratio %r at %r of the transition amplifies by %r to %r, wanted %r' % (kk, q, dn, up, g))
                if one:
                    close(ideal.get_xdata(), xx, 1e-12, 1e-12, 'distance of the ideal amplification')
                    close(ideal.get_ydata(), [sb.DAFinfinite(alp=al, bet=b, kratio=q) for q in yy], 1e-9, 1e-12, 'ideal amplification')
                kt = yy[1:-1]
                v = VCRIT * al
                lo, hi = .5 - abs(xl[0]) * lc, .5 + abs(xl[1]) * lc
                x = np.linspace(lo, hi, c['nx'])
                t = L / v * np.linspace(lo, hi * c['ext'], c['nt'])
                s = np.linspace(0, 1, c['ninterp'])
                prof = ([0] + list(.5 + (s - .5) * r * lc) + [1], [K1] + list(K1 * np.interp(s, x0, kt)) + [kr * K1])
                mu = b * CCRIT
                ws = WSTAT
                if one:
                    u = np.arange(-3000, 3001) / 1000. * c['gap'] * L * LAM
                    z = np.abs(u[:, None] + np.arange(c['loads']) * c['gap'] * L * LAM)
                    ws *= np.max(np.sum(np.exp(-z) * (np.cos(z) + np.sin(z)), axis=1))
                tol = 2e-3 if one else 1e-6
                for back in backs:
                    w = sum(history(c['n'], -v if back else v, ([0, 1], [mu, mu]), prof, x, t - m * c['gap'] * L / v) for m in range(c['loads']))
                    top = np.abs(w).max() / ws
                    if top < 1e-9:
                        return False
                    line = wl.pop(0)
                    close(line.get_xdata(), (x - .5) / lc, 1e-9, 1e-9, 'distance')
                    close(line.get_ydata(), w.max(axis=1) / ws, tol, 0, 'envelope Lt=%r alpha=%r reverse=%r' % (r, al, back), scale=top)
                    peak[i, j, back] = w.max() / WSTAT
                    if axt:
                        near = sorted(w.max(axis=1))[-2:]
                        line, mark = tl.pop(0), tl.pop(0)
                        T = t if one else t / L * math.sqrt(E / RHO)
                        close(line.get_xdata(), T, 1e-9, 1e-9, 'time')
                        if near[1] - near[0] > 1e-6 * abs(near[1]):
                            p = int(np.argmax(w.max(axis=1)))
                            close(line.get_ydata(), w[p] / ws, tol, 0, 'deflection against time', scale=top)
                            tp = ((1 - x[p] if back else x[p]) + np.arange(c['loads']) * c['gap']) * L / v
                            tp = tp if one else tp / L * math.sqrt(E / RHO)
                            close(mark.get_xdata(), tp, 1e-9, 1e-9, 'times when the loads pass')
                            close(mark.get_ydata(), np.interp(tp, T, w[p] / ws), tol, 0, 'deflection when the loads pass', scale=top)
                    for m in range(c['loads']):
                        line = ll.pop(0)
                        close(line.get_xdata(), t, 1e-9, 1e-9, 'time')
                        for q, ti, y in zip(range(len(t)), t, line.get_ydata()):
                            pos = v * ti / L - m * c['gap']
                            pos = 1 - pos if back else pos
                            if min(abs(pos - lo), abs(pos - hi)) < 1e-9:
                                continue
                            require(np.isnan(y) == (pos < lo or pos > hi), 'deflection under the load at %r: %r' % (pos, y))
                            if not np.isnan(y):
                                close([y], [np.interp(pos, x, w[:, q]) / ws], tol, 0, 'deflection under a load', scale=top)
        require(not (wl or ll or tl or kl), 'more lines than expected')
        if not one:
            lines = list(figs[-1].axes[0].get_lines())
            require(len(lines) == len(a) * len(backs), 'one line for each velocity and direction')
            for j, al in enumerate(a):
                for back in backs:
                    line = lines.pop(0)
                    close(line.get_xdata(), lt, 1e-9, 0, 'lengths')
                    close(line.get_ydata(), [peak[i, j, back] / sb.DAFinfinite(alp=al, bet=b) for i in range(len(lt))], 1e-6, 1e-9, 'largest deflection, %r reverse=%r' % (al, back))
    return True
