"""runner.py ID (quick|thorough|replay PATH) [--tests a,b] [--n N]"""
import os, sys
LIB = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(LIB)
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path[:0] = [REPO, LIB, os.path.join(ROOT, 'checks')]
os.makedirs(os.path.join(ROOT, '.cache', 'mpl'), exist_ok=True)
os.environ['MPLCONFIGDIR'] = os.path.join(ROOT, '.cache', 'mpl')
import boot  # noqa
import argparse, glob, hashlib, importlib, json, mmap, multiprocessing, pickle, shutil, signal, struct, tempfile, time, traceback, warnings
warnings.simplefilter('ignore')
import numpy as np
import harness
from harness import Violation, dumps

T0 = time.time()
JLEN = 1 << 20


class CaseTimeout(BaseException):
    pass


def load(pid):
    mod = importlib.import_module(pid.lower())
    return mod.CHECK


def describe(exc):
    tb = traceback.format_exception(type(exc), exc, exc.__traceback__)
    if isinstance(exc, Violation):
        return str(exc)
    return 'raised ' + ''.join(tb)[-3000:]


class Stop(Exception):
    pass


def run_shard(check, test, n, seed, deadline, shrink_s, journal, out):
    """Runs in a forked child; leaves a pickle in `out`."""
    import hypothesis
    from hypothesis import settings, HealthCheck, Phase, given
    np.seterr(all='ignore')
    jf = open(journal, 'r+b')
    mm = mmap.mmap(jf.fileno(), JLEN)
    res = dict(test=test.name, evaluations=0, hashes=set(), samples=[], fail=None, truncated=False, error=None, labels={})
    first_fail = [None]
    past = []
    known = [e for e in KNOWN if e['property'] == check.id and e['test'] == test.name]
    known_keys = set(dumps(e['case']) for e in known)

    def on_alarm(sig, frm):
        raise CaseTimeout()
    signal.signal(signal.SIGALRM, on_alarm)

    def attempt(key):
        b = key.encode()[:JLEN - 8]
        mm[0:4] = struct.pack('<I', len(b))
        mm[4:4 + len(b)] = b
        if first_fail[0] is None:
            res['evaluations'] += 1
        if key in known_keys:
            return
        try:
            signal.alarm(check.case_timeout)
            try:
                nt = test.fn(json.loads(key))
            finally:
                signal.alarm(0)
        except CaseTimeout:
            res['fail'] = (key, 'did not finish within %d s' % check.case_timeout)
            raise Stop()
        except hypothesis.errors.UnsatisfiedAssumption:
            raise
        except (Exception, SystemExit) as e:
            if first_fail[0] is None:
                first_fail[0] = time.time()
                res['past'] = past, key, describe(e)
            d = describe(e)
            if res['fail'] is None or len(key) <= len(res['fail'][0]):
                res['fail'] = (key, d)
            raise Violation('x')
        if first_fail[0] is None:
            past.append(key)
        if nt and first_fail[0] is None:
            h = hashlib.blake2b(b, digest_size=8).digest()
            if h not in res['hashes']:
                res['hashes'].add(h)
                if len(res['samples']) < 2:
                    res['samples'].append(key)

    twins = getattr(test.strategy, 'independent_fields', False)

    def body(case):
        now = time.time()
        if first_fail[0] is not None and now - first_fail[0] > shrink_s:
            return  # shrink budget used: keep the smallest failure so far
        if now > deadline:
            res['truncated'] = True
            return
        key = dumps(case)
        last = past[-1] if past else None
        attempt(key)
        if twins and last is not None:
            # now and then the case before the last with one field of the last: what an earlier call left behind
            # (a table kept under too few keys) shows when nearly the same is asked again
            r = int(hashlib.blake2b(key.encode(), digest_size=4).hexdigest(), 16)
            if r % 5 == 0:
                a, b = json.loads(last), json.loads(key)
                diff = [k for k in sorted(b) if a.get(k) != b[k]]
                if len(diff) > 1:
                    k = diff[r // 5 % len(diff)]
                    # either near the last case or near the one before it
                    t = dict(a, **{k: b[k]}) if r // 5 % 2 else dict(b, **{k: a[k]})
                    attempt(dumps(t))

    g = given(test.strategy)(body)
    g = hypothesis.seed(seed)(g)
    g = settings(max_examples=n, database=None, deadline=None, print_blob=False, report_multiple_bugs=False,
                 phases=(Phase.generate, Phase.shrink),
                 suppress_health_check=[HealthCheck.too_slow, HealthCheck.data_too_large, HealthCheck.large_base_example])(g)
    try:
        g()
    except BaseException as e:
        if res['fail'] is None:
            res['error'] = ''.join(traceback.format_exception(type(e), e, e.__traceback__))[-6000:]
    res['labels'] = dict(harness.LABELS)
    with open(out + '.tmp', 'wb') as f:
        pickle.dump(res, f)
    os.rename(out + '.tmp', out)


def child(*a):
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    os.dup2(devnull, 2)
    try:
        run_shard(*a)
    finally:
        os._exit(0)


KNOWN = []


def read_known():
    p = os.path.join(ROOT, 'known_findings.json')
    if os.path.exists(p):
        KNOWN.extend(e for e in json.load(open(p))['findings'])


def write_replay(pid, test, key, msg, before=()):
    d = os.path.join(ROOT, 'replay')
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, '%s-%s-%s.json' % (pid, test, hashlib.sha256(''.join([key] + list(before)).encode()).hexdigest()[:10]))
    with open(p, 'w') as f:
        r = dict(property=pid, test=test, case=json.loads(key), message=msg)
        if before:
            # the case fails after these, in one process
            r['before'] = [json.loads(k) for k in before]
        json.dump(r, f, indent=1)
        f.write('\n')
    return p


def run_one(check, test, case, before=()):
    """Plain run of one case (after others) in a forked child; returns None or message."""
    jd = tempfile.mkdtemp(prefix='one-', dir=os.path.join(ROOT, '.cache'))
    out = os.path.join(jd, 'o')

    def go():
        devnull = os.open(os.devnull, os.O_WRONLY)
        if not os.environ.get('VERIF_VERBOSE'):
            os.dup2(devnull, 1)
            os.dup2(devnull, 2)
        np.seterr(all='ignore')
        m = None
        for b in before:
            try:
                signal.alarm(check.case_timeout)
                test.fn(json.loads(dumps(b)))
            except (Exception, SystemExit):
                pass
        signal.alarm(check.case_timeout)
        try:
            test.fn(json.loads(dumps(case)))
        except (Exception, SystemExit) as e:
            m = describe(e)
        signal.alarm(0)
        with open(out, 'w') as f:
            json.dump(m, f)
        os._exit(0)
    p = multiprocessing.get_context('fork').Process(target=go)
    p.start()
    p.join()
    r = json.load(open(out)) if os.path.exists(out) else 'process ended with exit code %s' % p.exitcode
    shutil.rmtree(jd, ignore_errors=True)
    return r


def needed(check, test, past, key, until):
    """The cases that must come before `key` in one process to make it fail (None: it does not fail again)."""
    fails = lambda before: run_one(check, test, json.loads(key), [json.loads(k) for k in before]) is not None
    if not fails(past):
        return None
    n = 2
    while len(past) > 1 and time.time() < until:
        step = -(-len(past) // n)
        parts = [past[i:i + step] for i in range(0, len(past), step)]
        for i, q in enumerate(parts):
            rest = sum(parts[:i] + parts[i + 1:], [])
            for less, m in ((q, 2), (rest, max(n - 1, 2))):
                if len(less) < len(past) and time.time() < until and fails(less):
                    past, n = less, m
                    break
            else:
                continue
            break
        else:
            if n >= len(past):
                break
            n = min(2 * n, len(past))
    return past


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('tier')
    ap.add_argument('path', nargs='?')
    ap.add_argument('--tests')
    ap.add_argument('--scale', type=float, default=1.0)
    a = ap.parse_args()
    seed0 = int(os.environ.get('VERIF_SEED', '1'))
    check = load(a.pid)
    if check.setup:
        check.setup()
    read_known()
    tests = {t.name: t for t in check.tests}
    if a.tier == 'replay':
        r = json.load(open(a.path))
        m = run_one(check, tests[r['test']], r['case'], r.get('before', ()))
        if m is None:
            print('no violation')
            return 0
        print(m)
        print('VIOLATION property=%s replay=%s' % (a.pid, a.path))
        return 1
    tier = a.tier
    if a.tests:
        sel = a.tests.split(',')
        tests = {k: v for k, v in tests.items() if k in sel}
    budget = 420 if tier == 'quick' else float(os.environ.get('VERIF_BUDGET', '2400'))
    deadline = T0 + budget
    shrink_s = 40 if tier == 'quick' else 240
    ncpu = min(8, os.cpu_count() or 1)
    violations, errors, findings = [], [], []
    stats = {}
    samples = []
    evals = 0
    hashes = set()
    # 1. committed regression cases and known findings
    n_regress = 0
    for f in sorted(glob.glob(os.path.join(ROOT, 'regress', check.id, '*.json'))):
        r = json.load(open(f))
        if r['test'] not in tests:
            continue
        n_regress += 1
        m = run_one(check, tests[r['test']], r['case'], r.get('before', ()))
        if m:
            violations.append((r['test'], dumps(r['case']), m))
    for e in KNOWN:
        if e['property'] != check.id or e['test'] not in tests:
            continue
        m = run_one(check, tests[e['test']], e['case'])
        if m:
            findings.append(e)
    # 2. generated cases
    tasks = []
    for t in tests.values():
        n = t.quick * check.quick_scale if tier == 'quick' else t.thorough
        n = max(1, int(n * a.scale))
        k = max(1, min(t.shards, n // 4))
        for s in range(k):
            m = n // k + (1 if s < n % k else 0)
            sd = int(hashlib.sha256(('%d/%s/%s/%d' % (seed0, check.id, t.name, s)).encode()).hexdigest()[:15], 16)
            tasks.append((t, m, sd, s))
    tasks.sort(key=lambda x: x[3])   # first shards of all tests first
    jd = tempfile.mkdtemp(prefix='run-', dir=os.path.join(ROOT, '.cache'))
    ctx = multiprocessing.get_context('fork')
    running = []
    pending = list(tasks) if not violations else []
    results = []
    try:
        i = 0
        while pending or running:
            while pending and len(running) < ncpu and not violations:
                t, m, sd, s = pending.pop(0)
                j = os.path.join(jd, 'j%d' % i)
                o = os.path.join(jd, 'o%d' % i)
                i += 1
                with open(j, 'wb') as f:
                    f.truncate(JLEN)
                p = ctx.Process(target=child, args=(check, t, m, sd, deadline, shrink_s, j, o))
                p.start()
                running.append((p, t, j, o, time.time()))
            time.sleep(0.01)
            for x in list(running):
                p, t, j, o, ts = x
                if p.is_alive():
                    continue
                p.join()
                running.remove(x)
                if os.path.exists(o):
                    r = pickle.load(open(o, 'rb'))
                    r['wall'] = time.time() - ts
                    results.append(r)
                    if r['fail']:
                        violations.append((t.name,) + r['fail'])
                    elif r['error']:
                        errors.append((t.name, r['error']))
                else:
                    b = open(j, 'rb').read()
                    n = struct.unpack('<I', b[:4])[0]
                    key = b[4:4 + n].decode()
                    if p.exitcode is not None and p.exitcode < 0 and p.exitcode not in (-9, -15) and key:
                        violations.append((t.name, key, 'the process was ended by signal %d' % -p.exitcode))
                    else:
                        errors.append((t.name, 'worker ended with exit code %s' % p.exitcode))
                os.unlink(j)
            if violations and pending:
                pending = []
    finally:
        for p, *_ in running:
            p.kill()
        shutil.rmtree(jd, ignore_errors=True)
    truncated = False
    labels = {}
    for r in results:
        s = stats.setdefault(r['test'], dict(evaluations=0, nontrivial=set(), wall=0.0))
        s['evaluations'] += r['evaluations']
        s['nontrivial'] |= r['hashes']
        s['wall'] += r['wall']
        evals += r['evaluations']
        truncated |= r['truncated']
        for k, v in r['labels'].items():
            labels[r['test'] + ':' + k] = labels.get(r['test'] + ':' + k, 0) + v
        hashes |= set((r['test'], h) for h in r['hashes'])
    seen = {}
    for r in results:
        for k in r['samples']:
            if seen.get(r['test'], 0) < 2 and len(k) < 4000:
                seen[r['test']] = seen.get(r['test'], 0) + 1
                samples.append(dict(test=r['test'], case=json.loads(k)))
    ev = dict(property=check.id, tier=tier if tier in ('quick', 'thorough') else 'quick', seed=seed0, level='exploration',
              coverage=dict(evaluations=evals, distinct_nontrivial=len(hashes), rule=check.rule, samples=samples[:12],
                            tests={k: dict(evaluations=v['evaluations'], distinct_nontrivial=len(v['nontrivial']),
                                           cpu_s=round(v['wall'], 2)) for k, v in sorted(stats.items())},
                            labels=labels, regression_cases=n_regress, known_findings_reproduced=len(findings),
                            stopped_by_time_budget=truncated),
              assumptions=check.assumptions, wall_s=round(time.time() - T0, 2), violations=len(violations))
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    p = os.path.join(ROOT, 'evidence', check.id + '.json')
    with open(p + '.tmp', 'w') as f:
        json.dump(ev, f, indent=1)
    os.rename(p + '.tmp', p)
    for e in findings:
        print('KNOWN-FINDING: property=%s %s' % (check.id, e['what']))
    best = {}
    for t, key, m in violations:
        if t not in best or len(key) < len(best[t][0]):
            best[t] = (key, m)
    for t, (key, m) in sorted(best.items()):
        before = ()
        if 'did not finish' not in m and 'ended by signal' not in m and run_one(check, tests[t], json.loads(key)) is None:
            # it does not fail on its own: find what has to come before it
            until = time.time() + (120 if tier == 'quick' else 600)
            for r in results:
                if r['test'] == t and r.get('past') and time.time() < until:
                    q = needed(check, tests[t], r['past'][0], r['past'][1], until)
                    if q is not None:
                        before, key, m = q, r['past'][1], r['past'][2]
                        break
        rp = write_replay(check.id, t, key, m, before)
        print('%s: %s' % (t, m))
        print('VIOLATION property=%s replay=%s' % (check.id, os.path.relpath(rp, ROOT)))
    print('%s %s: %d cases, %d distinct non-trivial, %.1f s%s' % (check.id, tier, evals, len(hashes), time.time() - T0,
                                                                  ' (time budget reached)' if truncated else ''))
    if violations:
        return 1
    if errors:
        for t, e in errors:
            print('ERROR in %s: %s' % (t, e))
        return 2
    empty = [t for t, s in stats.items() if not s['nontrivial'] and not truncated]
    if empty:
        print('ERROR: no non-trivial case in %s' % empty)
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main())
