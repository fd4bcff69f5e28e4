import importlib, json, os, shutil, signal, subprocess, sys, tempfile, time, traceback, warnings

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'harness'))
sys.path.insert(0, HERE)
warnings.simplefilter('ignore')

NWORKERS = 8
SOFT = {'quick': 150, 'thorough': 780}  # seconds of generation; then workers stop generating (never a verdict)
HARD = {'quick': 600, 'thorough': 880}
SHRINK_S = {'quick': 40, 'thorough': 120}
CASE_S = 240  # one case that runs longer than this does not terminate for practical purposes

REPO = os.environ.get('OCGIS_REPO', '/repo')


def load(pid):
    import glob
    names = glob.glob(os.path.join(HERE, 'checks', pid.lower() + '_*.py'))
    if len(names) != 1:
        raise SystemExit('no check module for ' + pid)
    return importlib.import_module('checks.' + os.path.basename(names[0])[:-3])


def known_findings(pid):
    p = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [k for k in json.load(f) if k.get('property') == pid and k.get('status') == 'known']


def setup_ocgis(scratch):
    import numpy as np
    np.seterr(all='ignore')
    import ocgis
    src = os.path.realpath(ocgis.__file__)
    if not src.startswith(os.path.realpath(REPO) + os.sep):
        raise SystemExit('ocgis imported from {} instead of {}'.format(src, REPO))
    return ocgis


class Alarm(Exception):
    pass


def _alarm(*a):
    raise Alarm('case did not finish within {} s'.format(CASE_S))


def clean_state(scratch):
    import ocgis
    try:
        ocgis.env.reset()
    except Exception:
        pass
    for n in os.listdir(scratch):
        if n in ('deps',) or n.startswith('keep'):
            continue
        p = os.path.join(scratch, n)
        shutil.rmtree(p, ignore_errors=True) if os.path.isdir(p) and not os.path.islink(p) else os.unlink(p)


def run_case(target, case, scratch):
    """-> (label, None) | ('skip', None) | (None, message)"""
    from core import Violation, Skip
    os.chdir(scratch)
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_S)
    try:
        label = target.run(case)
        return label, None
    except Skip:
        return 'skip', None
    except Violation as e:
        return None, str(e)[:4000]
    except MemoryError:
        raise
    except Exception:
        tb = traceback.format_exc()
        return None, 'unexpected exception on an input inside the domain:\n' + tb[-3500:]
    except SystemExit as e:
        return None, 'unexpected SystemExit: {}'.format(e)
    finally:
        signal.alarm(0)
        os.chdir(scratch)
        clean_state(scratch)


def worker(pid, tier, k, nw, seed, out, deps):
    t00 = time.time()
    scratch = os.environ['VERIF_SCRATCH']
    import deps as deps_mod
    deps_mod.ensure(HERE, os.path.dirname(scratch))
    mod = load(pid)
    setup_ocgis(scratch)
    import hypothesis
    from hypothesis import given, settings, strategies as st, HealthCheck, Phase
    from core import canon, digest
    stats = {}

    def flush(done=False):
        with open(out + '.tmp', 'w') as f:
            json.dump({'stats': stats, 'done': done}, f, default=str)
        os.replace(out + '.tmp', out)

    targets = mod.TARGETS
    if os.environ.get('VERIF_TARGET'):
        targets = [t for t in targets if t.name in os.environ['VERIF_TARGET'].split(',')]
    t0 = time.time()
    # Rotate so that with a soft limit every target is reached by some worker.
    order = [(i + k) % len(targets) for i in range(len(targets))]
    for pos, ti in enumerate(order):
        target = targets[ti]
        n = -(-target.n[tier] // nw)
        if target.n[tier] < nw and k >= target.n[tier]:
            continue
        s = stats[target.name] = dict(evaluations=0, nontrivial=0, skipped=0, known=0, labels={}, digests=[], samples=[],
                                      violation=None, wall_s=0.0, errors=0)
        state = {'fail': None, 'first_fail': None}
        budget_end = t0 + SOFT[tier] * (pos + 1) / float(len(order))
        seen = set()
        tstart = time.time()

        @st.composite
        def cases(draw):
            return target.gen(draw)

        def body(case):
            now = time.time()
            if state['first_fail'] is None and now > budget_end:
                return
            if state['first_fail'] is not None and now > state['first_fail'] + SHRINK_S[tier]:
                # Out of shrinking time: only the best case found so far still counts as failing.
                if canon(case) == state['fail'][2]:
                    raise AssertionError(state['fail'][1])
                return
            case = json.loads(canon(case))
            if target.known is not None and target.known(case):
                s['known'] += 1
                return
            label, msg = run_case(target, case, scratch)
            if msg is not None:
                if state['first_fail'] is None:
                    state['first_fail'] = time.time()
                state['fail'] = (case, msg, canon(case))
                raise AssertionError(msg)
            s['evaluations'] += 1
            if label == 'skip':
                s['skipped'] += 1
            elif label:
                d = digest(case)
                if d not in seen:
                    seen.add(d)
                    s['nontrivial'] += 1
                    lab = label if isinstance(label, (list, tuple)) else [label]
                    for l in lab:
                        s['labels'][str(l)] = s['labels'].get(str(l), 0) + 1
                    if len(s['samples']) < 2 and len(canon(case)) < 1500:
                        s['samples'].append(case)

        sd = (int(seed) * 1000003 + k * 7919 + sum(ord(c) * (i + 1) for i, c in enumerate(pid + target.name))) % (2 ** 63)
        wrapped = hypothesis.seed(sd)(settings(max_examples=max(1, n), database=None, deadline=None,
                                               report_multiple_bugs=False, print_blob=False,
                                               suppress_health_check=list(HealthCheck),
                                               phases=(Phase.generate, Phase.shrink),
                                               verbosity=hypothesis.Verbosity.quiet)(given(cases())(body)))
        try:
            wrapped()
        except MemoryError:
            raise
        except BaseException as e:
            if state['fail'] is None:
                sys.stderr.write('HARNESS ERROR in target {}: {}\n'.format(target.name, traceback.format_exc()))
                s['errors'] += 1
        if state['fail'] is not None:
            s['violation'] = {'case': state['fail'][0], 'message': state['fail'][1]}
        s['digests'] = sorted(seen)
        s['wall_s'] = round(time.time() - tstart, 2)
        flush()
        if s['violation']:
            break
    flush(done=True)


def replay(path):
    with open(path) as f:
        r = json.load(f)
    scratch = tempfile.mkdtemp(prefix='verif-replay-')
    try:
        import deps as deps_mod
        deps_mod.ensure(HERE, scratch)
        mod = load(r['property'])
        setup_ocgis(scratch)
        target = [t for t in mod.TARGETS if t.name == r['target']][0]
        label, msg = run_case(target, r['case'], scratch)
        if msg is not None:
            print(msg)
            print('VIOLATION property={} replay={}'.format(r['property'], path))
            return 1
        print('property {} holds on this case (label {})'.format(r['property'], label))
        return 0
    finally:
        os.chdir('/')
        shutil.rmtree(scratch, ignore_errors=True)


def main_check(pid, tier):
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    evdir = os.path.join(HERE, 'evidence')
    os.makedirs(evdir, exist_ok=True)
    repdir = os.path.join(HERE, 'replays')
    base = tempfile.mkdtemp(prefix='verif-{}-'.format(pid))
    import deps as deps_mod
    deps_mod.ensure(HERE, base)
    mod = load(pid)
    procs = []
    nw = int(os.environ.get('VERIF_WORKERS', NWORKERS))
    rc = 2
    try:
        for k in range(nw):
            sc = os.path.join(base, 'w{}'.format(k))
            os.makedirs(sc)
            env = dict(os.environ, VERIF_SCRATCH=sc, TMPDIR=sc, HOME=sc, PYTHONUNBUFFERED='1')
            out = os.path.join(base, 'out{}.json'.format(k))
            err = open(os.path.join(base, 'err{}'.format(k)), 'w')
            procs.append((subprocess.Popen([sys.executable, '-W', 'ignore', os.path.abspath(__file__), '--worker', pid, tier,
                                            str(k), str(nw), str(seed), out], stdout=err, stderr=err, env=env, cwd=sc,
                                           start_new_session=True), out, err))
        # Known findings are re-examined in this process while the workers run.
        kf_lines = []
        kfs = known_findings(pid)
        if kfs:
            sc = os.path.join(base, 'kf')
            os.makedirs(sc)
            setup_ocgis(sc)
            for kf in kfs:
                target = [t for t in mod.TARGETS if t.name == kf['target']][0]
                label, msg = run_case(target, kf['case'], sc)
                if msg is not None:
                    kf_lines.append('KNOWN-FINDING: property={} {}'.format(pid, kf['what']))
            os.chdir(HERE)
        viol_at = None
        timed_out = False
        while True:
            alive = [p for p in procs if p[0].poll() is None]
            if not alive:
                break
            if viol_at is None:
                for p in procs:
                    if os.path.exists(p[1]):
                        try:
                            d = json.load(open(p[1]))
                            if any(s['violation'] for s in d['stats'].values()):
                                viol_at = time.time()
                        except ValueError:
                            pass
            if viol_at is not None and time.time() > viol_at + 3:
                break
            if time.time() > t0 + HARD[tier]:
                timed_out = True
                break
            time.sleep(0.1)
        for p, _, _ in procs:
            if p.poll() is None:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    pass
                p.wait()
        crashed = []
        merged = {}
        violations = []
        incomplete = 0
        for k, (p, out, err) in enumerate(procs):
            err.close()
            d = None
            if os.path.exists(out):
                d = json.load(open(out))
            if d is None or not d['done']:
                incomplete += 1
                if viol_at is None:
                    crashed.append((k, p.returncode, open(err.name).read()[-3000:]))
            if d is None:
                continue
            for name, s in d['stats'].items():
                m = merged.setdefault(name, dict(evaluations=0, skipped=0, known=0, labels={}, digests=set(), samples=[], errors=0))
                for f in ('evaluations', 'skipped', 'known', 'errors'):
                    m[f] += s[f]
                m['digests'].update(s['digests'])
                for l, c in s['labels'].items():
                    m['labels'][l] = m['labels'].get(l, 0) + c
                if len(m['samples']) < 2:
                    m['samples'].extend(s['samples'][:1])
                if s['violation']:
                    violations.append((name, s['violation']))
                if s['errors']:
                    crashed.append((k, 'harness', open(err.name).read()[-3000:]))
        rules = '; '.join('{}: {}'.format(t.name, t.rule) for t in mod.TARGETS if t.rule)
        ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration',
              'coverage': {
                  'evaluations': sum(m['evaluations'] for m in merged.values()),
                  'distinct_nontrivial': sum(len(m['digests']) for m in merged.values()),
                  'rule': (mod.__doc__ or '').strip() + ' | ' + rules,
                  'samples': [{'target': n, 'case': c} for n, m in sorted(merged.items()) for c in m['samples'][:2]],
                  'targets': {n: {'evaluations': m['evaluations'], 'distinct_nontrivial': len(m['digests']),
                                  'outside_domain': m['skipped'], 'in_known_finding_class': m['known'],
                                  'labels': m['labels']} for n, m in sorted(merged.items())},
                  'known_findings_reproduced': len(kf_lines), 'workers': nw,
              },
              'wall_s': round(time.time() - t0, 2)}
        if violations:
            ev['coverage']['violation'] = violations[0][1]['message'][:2000]
        with open(os.path.join(evdir, pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        for l in kf_lines:
            print(l)
        if violations:
            os.makedirs(repdir, exist_ok=True)
            violations.sort(key=lambda v: len(json.dumps(v[1]['case'])))
            name, v = violations[0]
            path = os.path.join(repdir, '{}-{}-seed{}.json'.format(pid, name, seed))
            with open(path, 'w') as f:
                json.dump({'property': pid, 'target': name, 'case': v['case'], 'message': v['message'], 'seed': seed,
                           'how': 'bash /verif/run.sh replay ' + path}, f, indent=1)
            print('target {}: {}'.format(name, v['message']))
            print('VIOLATION property={} replay={}'.format(pid, path))
            rc = 1
        elif crashed or timed_out:
            for k, r, e in crashed:
                print('ERROR worker {} returncode {}:\n{}'.format(k, r, e))
            print('ERROR check of {} did not complete (timed_out={})'.format(pid, timed_out))
            rc = 2
        else:
            c = ev['coverage']
            print('OK property={} evaluations={} distinct_nontrivial={} wall={}s'.format(
                pid, c['evaluations'], c['distinct_nontrivial'], ev['wall_s']))
            if os.environ.get('VERIF_VERBOSE'):
                print(json.dumps(c['targets'], indent=1))
            rc = 0
        return rc
    finally:
        for p, _, _ in procs:
            if p.poll() is None:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    pass
        os.chdir('/')
        shutil.rmtree(base, ignore_errors=True)


if __name__ == '__main__':
    a = sys.argv[1:]
    if a[0] == '--worker':
        worker(a[1], a[2], int(a[3]), int(a[4]), int(a[5]), a[6], None)
    elif a[0] == 'replay':
        sys.exit(replay(a[1]))
    elif a[0] == 'setup':
        import deps as d
        import glob as g
        p = os.path.join(HERE, '.deps')
        if not os.path.isdir(os.path.join(p, 'hypothesis')):
            d.extract(p)
        print('setup ok')
    else:
        sys.exit(main_check(a[0], a[1] if len(a) > 1 else os.environ.get('VERIF_TIER', 'quick')))
