"""K06: EPUS unsaturated soil model: Python against Fortran, invariants of paths, profiles."""
from harness import *
import contextlib, io, os, tempfile
import fort


def setup():
    fort.epus()


CHECK = Check('K06', rule='the path has both a stress and a suction step, or the profile has suction above a water table',
              setup=setup, assumptions=['curve parameters near those of soils (air entry below 10^5 kPa, wr below wsat, compression index between 0.02 and 0.3)', 'loading and unloading are elastic below the largest stress so far while the soil is saturated'])


def module():
    import geotecha.constitutive_models.epus as E
    import sys
    E.epus_ext = sys.modules['geotecha.constitutive_models.epus_ext']
    E._SUCCESSFUL_FORTRAN_IMPORT = True
    return E


SOIL = rec(aev=logu(1, 1000), b=num(.8, 4), wsat=num(.2, .6), wr=num(.1, .6), sl=num(.02, .2), logDS=num(.1, 1.2), logRS=num(1, 3), ccs=maybe(num(.03, .3)), css=maybe(num(.05, .4)), ccd=num(0, .8),
           Gs=num(2.5, 2.9), ass=st.sampled_from([1, 1, 0]), beta=num(0, .3), pm=num(.5, 2), ps=num(0, 1.5), K0=num(.3, 1), Npoint=st.integers(8, 60), NumSr=st.integers(5, 40))
STEP = rec(ist=st.booleans(), v=num(0, 1), npp=st.integers(2, 8), named=st.booleans())
ATTR = ['ss', 'st', 'e', 'w', 'Sr', 'vw']


def make(E, c, path, imp):
    s = E.CurveFittingSWCC(wsat=c['wsat'], a=c['aev']**c['b'], b=c['b'], wr=c['wr'] * c['wsat'], sl=c['sl'])
    Ccs = c['ccs'] or c['sl']
    kw = {}
    if c['ccs']:
        kw['Ccs'] = c['ccs']
    if c['css']:
        kw['Css'] = c['css'] * Ccs
    if imp:
        kw['implementation'] = imp
    return E.EPUS(s, E.StressPath(path), logDS=c['logDS'], logRS=c['logRS'], Ccd=c['ccd'] * Ccs, Gs=c['Gs'], Assumption=c['ass'], beta=c['beta'], pm=c['pm'], Pore_shape=c['ps'], K0=c['K0'],
                  Npoint=c['Npoint'], NumSr=c['NumSr'], **kw)


def steps(path):
    out = []
    for i, s in enumerate(path):
        d = dict(ist=s['ist'], npp=s['npp'], vl=float('%.6g' % 10**((-2 + 5.5 * s['v']) if s['ist'] else (-2.5 + 8.5 * s['v']))))
        if s['named']:
            d['name'] = 'step %d' % i
        out.append(d)
    return out


def run(o):
    with contextlib.redirect_stdout(io.StringIO()):
        o.Calresults()
    o.stp.combine_datapoints()
    d = o.stp.datapoints_combined
    return {k: getattr(d, k).copy() for k in ATTR}


@CHECK.test(rec(soil=SOIL, path=st.lists(STEP, min_size=1, max_size=5)), quick=2500, thorough=30000)
def paths(c):
    """both implementations agree; recorded path, definitions and bounds; a longer path starts like a shorter one"""
    E = module()
    path = steps(c['path'])
    snap = snapshot(path)
    py = run(make(E, c['soil'], path, 'scalar'))
    o = make(E, c['soil'], path, 'fortran')
    fo = run(o)
    same_snapshot(snap, path)
    Gs = c['soil']['Gs']
    for k in ATTR:
        require(np.isfinite(py[k]).all(), lambda: '%s is not finite: %r' % (k, py[k]))
        close(fo[k], py[k], 1e-9, 1e-12, '%s, Fortran against Python' % k)
    # recorded suctions and stresses
    ss, st_ = [], []
    cs, ct = 1e-3, 1e-6
    for d in path:
        a = ct if d['ist'] else cs
        x = a * (d['vl'] / a)**(np.arange(d['npp']) / (d['npp'] - 1.))
        ss += [cs] * d['npp'] if d['ist'] else list(x)
        st_ += list(x) if d['ist'] else [ct] * d['npp']
        if d['ist']:
            ct = d['vl']
        else:
            cs = d['vl']
    close(np.minimum(py['ss'], 999998), np.minimum(ss, 999998), 1e-9, 0, 'suctions')
    close(py['st'], st_, 1e-9, 0, 'stresses')
    i = 0
    for d, n, p in zip(path, o.stp.name, o.stp.datapoints):
        require(len(p.e) == d['npp'] and p.npts == d['npp'], 'points of the step')
        if 'name' in d:
            require(n == d['name'], 'name of the step')
        else:
            require(('%g kPa' % d['vl']) in n and ('stress' if d['ist'] else 'suction') in n, 'default name %r' % n)
        for k in ATTR:
            close(getattr(p, k), fo[k][i:i + d['npp']], 1e-12, 1e-14, 'combined %s' % k)
        i += d['npp']
    e, w, S, vw = py['e'], py['w'], py['Sr'], py['vw']
    require(np.all(e > 0), 'void ratio not positive')
    require(np.all(S >= -1e-12) and np.all(S <= 1 + 1e-12), lambda: 'saturation outside 0..1: %r' % S)
    close(S * e / Gs, w, 1e-12, 1e-15, 'water content = saturation * void ratio / Gs')
    close(vw, S * e / (1 + e), 1e-12, 1e-15, 'volumetric water content')
    # loading compresses; drying shrinks and loses water
    i = 0
    for j, d in enumerate(path):
        sl = slice(i, i + d['npp'])
        prev = ([1e-6] + [q['vl'] for q in path[:j] if q['ist']])[-1] if d['ist'] else ([1e-3] + [q['vl'] for q in path[:j] if not q['ist']])[-1]
        if d['vl'] > prev:
            require(np.all(np.diff(e[sl]) <= 1e-12), lambda: 'void ratio grows while %s: %r' % ('loading' if d['ist'] else 'drying', e[sl]))
            if not d['ist']:
                require(np.all(np.diff(w[sl]) <= 1e-12), lambda: 'water content grows while drying: %r' % w[sl])
        elif d['vl'] < prev and d['ist']:
            require(np.all(np.diff(e[sl]) >= -1e-12), lambda: 'void ratio falls while unloading: %r' % e[sl])
        i += d['npp']
    # causality
    if len(path) > 1:
        k = len(path) - 1
        sub = run(make(E, c['soil'], path[:k], None))
        n = sum(d['npp'] for d in path[:k])
        for a in ATTR:
            close(sub[a], fo[a][:n], 1e-12, 1e-15, '%s of the first %d steps' % (a, k))
    # running again gives the same
    again = run(o)
    for a in ATTR:
        close(again[a], fo[a], 1e-12, 1e-14, '%s of a second run' % a)
    return len(set(d['ist'] for d in path)) == 2


@CHECK.test(rec(soil=SOIL, hi=num(.3, 1), lo=num(0, 1), loops=st.integers(1, 3), npp=st.integers(2, 9)), quick=800, thorough=12000)
def elastic_loops(c):
    """saturated: unloading and reloading returns to the start; more points do not change the ends; slopes"""
    E = module()
    hi = 10**(.5 + 3 * c['hi'])
    lo = hi * 10**(-.1 - 2 * c['lo'])
    path = [dict(ist=True, vl=hi, npp=c['npp'])]
    for k in range(c['loops']):
        path += [dict(ist=True, vl=lo, npp=c['npp']), dict(ist=True, vl=hi, npp=c['npp'] + k)]
    r = {}
    for imp in ('scalar', 'fortran'):
        o = make(E, dict(c['soil'], K0=1.), path, imp)
        d = run(o)
        close(d['Sr'], np.ones(len(d['Sr'])), 1e-12, 0, 'saturated')
        ends = [p.e[-1] for p in o.stp.datapoints]
        for k in range(c['loops']):
            close(ends[2 * k + 2], ends[0], 1e-12, 0, 'void ratio after a closed loop')
            close(ends[2 * k + 1], ends[1], 1e-12, 0, 'void ratio at the bottom of the loop')
        one = make(E, dict(c['soil'], K0=1.), [dict(ist=True, vl=hi, npp=2)], imp)
        run(one)
        close(one.stp.datapoints[0].e[-1], ends[0], 1e-12, 0, 'number of points')
        f = getattr(o, 'f', None)
        if f is not None and np.all(f.RVC > 0):
            close(ends[1] - ends[0], math.log10((hi + 1e-3) / (lo + 1e-3)) * np.sum(f.Csp), 1e-9, 0, 'unloading slope')
            label('unloading slope')
        r[imp] = ends
    close(r['fortran'], r['scalar'], 1e-9, 0, 'implementations')
    return True


@CHECK.test(rec(soil=SOIL, H=num(2, 15), zw=maybe(num(-.1, 1.3)), q0=logu(1, 100), gamw=st.sampled_from([10, 9.81]), nz=st.integers(4, 9), npp=st.integers(3, 8), Npoint=st.integers(10, 40), refine=st.lists(st.tuples(num(.4, .9), num(.4, .9), num(.4, .9)), max_size=1),
                init=st.booleans(), dsig=num(1, 20), dpsi=num(1, 20)), quick=200, thorough=4000)
def profiles(c):
    """converged profile: overburden, density, state and moduli agree with separate EPUS runs"""
    E = module()
    dummy = make(E, c['soil'], [dict(ist=True, vl=1., npp=2)], None)
    H = c['H']
    zw = None if c['zw'] is None else c['zw'] * H
    fac = [f for f in c['refine'] if int(f[2] * c['npp']) > 1 and int(f[0] * c['nz']) > 1] + [(1, 1, 1)]
    kw = dict(nz_refine=[f[0] for f in fac], Npoint_refine=[f[1] for f in fac], npp_refine=[f[2] for f in fac])
    if c['init']:
        kw['initial_stress'] = ([0., H], [c['q0'], c['q0'] + 10 * H])
    p = E.EpusProfile(dummy, H=H, zw=zw, q0=c['q0'], gamw=c['gamw'], nz=c['nz'], Npoint=c['Npoint'], npp=c['npp'], atol=1e-3, rtol=1e-9, max_iter=60, **kw)
    with contextlib.redirect_stdout(io.StringIO()):
        try:
            p.calc()
        except ValueError as ex:
            require('Maximum iterations' in str(ex), 'unexpected %r' % ex)
            return False
    require(len(p.niter) == len(fac) and all(1 <= n <= 60 for n in p.niter), 'iterations %r' % p.niter)
    z = p.profile.z
    zw = H if zw is None else zw
    for v in np.linspace(0, H, c['nz']):
        require(np.any(abs(z - v) < 1e-9), 'depths')
    if 0 < zw < H:
        require(np.any(abs(z - zw) < 1e-9), 'water table is not a depth')
    require(abs(z[0]) < 1e-9 and abs(z[-1] - H) < 1e-9 and np.all(np.diff(z) > 0), 'depths')
    uw = (z - zw) * c['gamw']
    close(p.profile.uw, uw, 1e-9, 1e-9, 'pore water pressure')
    ss = np.where(uw < 0, -uw, 0)
    Gs = c['soil']['Gs']

    def soil(path):
        o = make(E, dict(c['soil'], Npoint=c['Npoint']), path, None)
        run(o)
        d = o.stp.datapoints[-1]
        return d.e[-1], min(d.Sr[-1], 1)

    def to_state(stress, suction):
        path = [dict(ist=True, vl=max(stress, 1e-6), npp=c['npp'])]
        if suction > 1e-3:
            path.append(dict(ist=False, vl=suction, npp=c['npp']))
        return path
    e, Sr, gam = p.profile.e, p.profile.Sr, p.profile.gam
    close(gam, (Gs + Sr * e) / (1 + e) * c['gamw'], 1e-12, 0, 'unit weight')
    tot = c['q0'] + np.concatenate(([0], np.cumsum(np.diff(z) * (gam[1:] + gam[:-1]) / 2)))
    close(p.profile.st, tot - np.maximum(uw, 0), 1e-10, 1e-9, 'stress from overburden')
    for i in range(len(z)):
        we, ws = soil(to_state(p.profile.st[i], ss[i]))
        # the state belongs to the stress of the last but one iteration, 1e-3 away
        Cc = (c['soil']['ccs'] or c['soil']['sl'])
        t = 1e-6 + 5 * Cc * 1.1e-3 / max(p.profile.st[i], 1e-2)
        close(e[i], we, 0, t, 'void ratio at depth %r' % z[i])
        if ss[i] <= 1e-3:
            close(Sr[i], 1, 1e-12, 0, 'saturation below the water table')
    # moduli
    before = {k: getattr(p.profile, k).copy() for k in ATTR + ['z', 'gam', 'uw']}
    with contextlib.redirect_stdout(io.StringIO()):
        p.compression_indexes(dsig=c['dsig'], dpsi=c['dpsi'])
    for k in before:
        close(getattr(p.profile, k), before[k], 0, 0, '%s after compression_indexes' % k)
    e, Sr, stress = p.profile.e, p.profile.Sr, p.profile.st
    for i in range(len(z)):
        base = to_state(stress[i], ss[i])
        e1, S1 = soil(base + [dict(ist=True, vl=max(stress[i], 1e-6) + c['dsig'], npp=c['npp'])])
        close(p.profile.m1s[i], (e1 - e[i]) / (1 + e[i]) / c['dsig'], 1e-9, 1e-12, 'm1s')
        close(p.profile.m1w[i], (S1 * e1 - Sr[i] * e[i]) / (1 + e[i]) / c['dsig'], 1e-9, 1e-12, 'm1w')
        if uw[i] < 0 and ss[i] > 1e-3:
            e2, S2 = soil(base + [dict(ist=False, vl=ss[i] + c['dpsi'], npp=c['npp'])])
        elif c['dpsi'] - uw[i] <= 1e-3:
            e2, S2 = soil(base + [dict(ist=True, vl=max(stress[i], 1e-6) + c['dpsi'], npp=c['npp'])])
        elif uw[i] >= 0:
            e2, S2 = soil(base + [dict(ist=True, vl=max(stress[i], 1e-6) + uw[i], npp=c['npp']), dict(ist=False, vl=c['dpsi'] - uw[i], npp=c['npp'])])
        else:
            continue
        close(p.profile.m2s[i], (e2 - e[i]) / (1 + e[i]) / c['dpsi'], 1e-9, 1e-12, 'm2s')
        close(p.profile.m2w[i], (S2 * e2 - Sr[i] * e[i]) / (1 + e[i]) / c['dpsi'], 1e-9, 1e-12, 'm2w')
    close(p.profile.m1a, p.profile.m1s - p.profile.m1w, 1e-12, 1e-15, 'm1a')
    close(p.profile.m2a, p.profile.m2s - p.profile.m2w, 1e-12, 1e-15, 'm2a')
    # permeability
    import geotecha.constitutive_models.void_ratio_permeability as K
    ck = K.CkPermeabilityModel(.5, 2., .8)
    with contextlib.redirect_stdout(io.StringIO()):
        p.water_permeability(ck, npp_swcc=40)
        p.air_permeability(ck, qfit=.6)
    ks = 2. * 10**((e - .8) / .5)
    close(p.profile.ka, ks * np.sqrt(1 - Sr) * (1 - Sr**(1 / .6))**1.2, 1e-9, 1e-12, 'air permeability')
    wet = ss <= 1e-3
    close(p.profile.kw[wet], ks[wet], 1e-12, 0, 'water permeability below the water table')
    require(np.all(p.profile.kw >= -1e-12) and np.all(p.profile.kw <= ks * (1 + 1e-9)), lambda: 'relative water permeability %r' % (p.profile.kw / ks))
    d = tempfile.mkdtemp(prefix='k06-')
    try:
        f = os.path.join(d, 'p.csv')
        p.save_profile_to_file(f)
        head = open(f).readline().strip().split(',')
        x = np.loadtxt(f, delimiter=',', skiprows=1)
        require(x.shape == (len(z), len(head)) and set(ATTR + ['z', 'gam', 'uw', 'm1s', 'm2s', 'm1w', 'm2w', 'm1a', 'm2a', 'kw', 'ka']) == set(head), 'columns of the file %r' % head)
        for j, k in enumerate(head):
            close(x[:, j], getattr(p.profile, k), 1e-5, 1e-300, 'saved %s' % k)
    finally:
        import shutil
        shutil.rmtree(d, ignore_errors=True)
    return bool(np.any(ss > 1e-3))
