#!/usr/bin/env python3
"""Driver of the checks:  python3 run.py C01   (tier from VERIF_TIER, default quick)

  run.py --setup          build everything the checks need
  run.py --replay FILE    re-run one recorded counterexample
Exit 0: held on everything explored.  Exit 1: VIOLATION line.  Exit 2: error.
"""
import json, os, subprocess, sys, time, threading, re
from concurrent.futures import ThreadPoolExecutor, as_completed

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, 'mc'))
sys.path.insert(0, os.path.join(VERIF, 'checks'))
sys.dont_write_bytecode = True
import build
import pymc
from checklist import CHECKS

TIER = os.environ.get('VERIF_TIER', 'quick')
if TIER not in ('quick', 'thorough'):
    TIER = 'quick'
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
JOBS = os.cpu_count() or 4


def known_for(prop):
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)) if k['property'] == prop and k['status'] == 'known']


def run_job(exe, args, timeout):
    out = os.path.join(build.OUT, 'out-%d-%d.json' % (os.getpid(), threading.get_ident()))
    if os.path.exists(out):
        os.unlink(out)
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:halt_on_error=1:exitcode=66:allocator_may_return_null=1:detect_stack_use_after_return=0',
               LC_ALL='C.UTF-8')
    try:
        r = subprocess.run([exe] + args + ['--out', out], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=timeout, env=env)
        rc, log = r.returncode, r.stdout.decode(errors='replace')
    except subprocess.TimeoutExpired as e:
        rc, log = 'timeout', (e.stdout or b'').decode(errors='replace')
    res = None
    if os.path.exists(out):
        try:
            res = json.load(open(out))
        except ValueError:
            res = None
        os.unlink(out)
    return rc, log[-6000:], res


def harness_list(exe):
    r = subprocess.run([exe, '--list'], stdout=subprocess.PIPE, check=True)
    rows = []
    for line in r.stdout.decode().splitlines():
        n, q, t, doc = line.split('\t')
        rows.append((n, int(q), int(t), doc))
    return rows


def harness_exe(src, variant):
    extra = next((p.get('extra', ()) for s in CHECKS.values() for p in s.get('parts', ()) if p['src'] == src), ())
    return build.harness(src, variant, extra_src=[os.path.join(build.SRC, x) for x in extra])


def cpp_jobs(prop, spec):
    jobs = []
    for part in spec['parts']:
        exe = harness_exe(part['src'], part['variant'])
        for n, q, t, doc in harness_list(exe):
            if part.get('only') and not re.match(part['only'], n):
                continue
            if part.get('skip') and re.match(part['skip'], n):
                continue
            jobs.append(dict(exe=exe, src=part['src'], variant=part['variant'], harness=n,
                             bound=(t if TIER == 'thorough' else q), doc=doc))
    return jobs


def write_evidence(prop, spec, results, wall, violations, extra=None):
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    states = sum(r.get('states', 0) for r in results)
    cov = dict(states=states,
               transitions=sum(r.get('transitions', 0) for r in results),
               traces_validated_against_impl=sum(r.get('executions', 0) for r in results),
               distinct_outcomes=sum(r.get('distinct_outcomes', 0) for r in results),
               exhaustive=all(r.get('verdict') == 'ok' for r in results) and bool(results),
               samples=[s for r in results for s in r.get('samples', [])][:12] or
                       [s for r in results for s in r.get('outcomes', [])][:12],
               harnesses=[{k: r.get(k) for k in ('harness', 'verdict', 'bound', 'executions', 'states', 'transitions',
                                                 'max_preemptions', 'distinct_outcomes', 'counters', 'wall', 'doc', 'message')
                           if r.get(k) not in (None, '')} for r in results])
    if extra:
        cov.update(extra)
    ev = dict(property=prop, tier=TIER, seed=SEED, level='model_checking', coverage=cov,
              assumptions=spec.get('assumptions', []), wall_s=round(wall, 2), violations=violations)
    tmp = os.path.join(VERIF, 'evidence', '.%s.tmp' % prop)
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(VERIF, 'evidence', prop + '.json'))


def save_replay(prop, rec):
    d = os.path.join(VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, '%s-%s.json' % (prop, rec.get('harness', 'x')))
    with open(p, 'w') as f:
        json.dump(rec, f, indent=1)
    return os.path.relpath(p, VERIF)


def symbolize(exe, text):
    def sub(m):
        try:
            r = subprocess.run(['addr2line', '-Cfe', exe, m.group(1)], stdout=subprocess.PIPE, timeout=60).stdout.decode().split('\n')
            if r and not r[0].startswith('??'):
                return 'pc %s [%s %s]' % (m.group(1), r[0][:120], r[1].replace(build.REPO + '/', ''))
        except Exception:
            pass
        return m.group(0)
    return re.sub(r'pc (0x[0-9a-f]+)', sub, text)


def confirm(job, res, log):
    """Replay the recorded choices twice in fresh processes; they must fail the same way."""
    args = ['--harness', job['harness'], '--bound', str(res['bound']), '--replay', ','.join(map(str, res['choices'])) or ',', '--cpu', '240']
    if TIER == 'thorough':
        args.append('--thorough')
    if job.get('known'):
        args += ['--known', job['known']]
    n = 0
    for _ in range(2):
        rc, lg, r2 = run_job(job['exe'], args, 600)
        if (r2 and r2['verdict'] == 'violation') or rc == 66:
            n += 1
    if n < 2:
        # the memory layout may differ in a fresh process: the whole exploration must find it again
        args = ['--harness', job['harness'], '--bound', str(job['bound']), '--time', '600'] + (['--thorough'] if TIER == 'thorough' else [])
        if job.get('known'):
            args += ['--known', job['known']]
        rc, lg, r2 = run_job(job['exe'], args, 900)
        return bool(r2 and r2['verdict'] == 'violation') or rc == 66
    return True


def check_cpp(prop, spec, known):
    jobs = cpp_jobs(prop, spec)
    kn = ','.join(k['key'] for k in known)
    tmax = spec.get('time', 600 if TIER == 'quick' else 3000)
    results, bad = [], []
    errors = []

    def work(j):
        j['known'] = kn
        args = ['--harness', j['harness'], '--bound', str(j['bound']), '--time', str(tmax)]
        if TIER == 'thorough':
            args.append('--thorough')
        if kn:
            args += ['--known', kn]
        return run_job(j['exe'], args, tmax + 300)
    with ThreadPoolExecutor(JOBS) as ex:
        futs = {ex.submit(work, j): j for j in jobs}
        for f in as_completed(futs):
            j = futs[f]
            rc, log, res = f.result()
            if res is None:
                # no verdict: sanitizer stop or a crash that the handler could not report
                r1 = work(j)
                if r1[2] is None and (r1[0] == 66 or (isinstance(r1[0], int) and r1[0] not in (0, 2))) and r1[0] == rc:
                    res = dict(harness=j['harness'], verdict='violation', message='the process was stopped: ' + log[-2500:], choices=[], bound=j['bound'])
                    j['crash'] = True
                    bad.append((j, res, log))
                else:
                    errors.append('%s: no result (rc=%s) %s' % (j['harness'], rc, log[-1500:]))
                    continue
            res['doc'] = j['doc']
            if res['verdict'] == 'violation' and not j.get('crash'):
                if confirm(j, res, log):
                    bad.append((j, res, log))
                else:
                    errors.append('%s: violation did not replay: %s' % (j['harness'], res['message']))
            elif res['verdict'] in ('diverged', 'error'):
                errors.append('%s: %s' % (j['harness'], res['message']))
            results.append(res)
            if os.environ.get('VERIF_VERBOSE'):
                print('%-28s %-9s bound=%s exec=%s states=%s outcomes=%s %.1fs %s' % (
                    res['harness'], res['verdict'], res.get('bound'), res.get('executions'), res.get('states'),
                    res.get('distinct_outcomes'), res.get('wall', 0), res['message'][:300]))
    results.sort(key=lambda r: r['harness'])
    return results, bad, errors


def finish(prop, spec, results, bad, errors, known, t0, extra=None):
    seen = {}
    for r in results:
        for k, v in (r.get('counters') or {}).items():
            if k.startswith('known:'):
                seen[k[6:]] = seen.get(k[6:], 0) + v
    for k in known:
        if k['key'] in seen:
            print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    write_evidence(prop, spec, results, time.time() - t0, len(bad), extra)
    for j, res, log in bad:
        rec = dict(property=prop, harness=res['harness'], src=j.get('src'), variant=j.get('variant'), tier=TIER, bound=res.get('bound'),
                   choices=res.get('choices'), message=symbolize(j['exe'], res['message']) if j.get('exe') else res['message'],
                   notes=res.get('notes'), labels=res.get('labels'), log=log[-3000:], doc=res.get('doc'),
                   how_to_replay='python3 run.py --replay <this file>')
        rec.update(res.get('replay', {}))
        path = save_replay(prop, rec)
        print('%s: %s' % (res['harness'], rec['message'][:1500]))
        for n in (res.get('notes') or [])[-25:]:
            print('    ' + n)
        print('VIOLATION property=%s replay=%s' % (prop, path))
    if bad:
        return 1
    if errors:
        print('\n'.join('ERROR ' + e for e in errors))
        return 2
    tot = sum(r.get('executions', 0) for r in results)
    print('%s held: %d harnesses, %d executions, %d states, %d transitions%s (%.1f s)' % (
        prop, len(results), tot, sum(r.get('states', 0) for r in results), sum(r.get('transitions', 0) for r in results),
        '' if all(r.get('verdict') == 'ok' for r in results) else ' [time cap reached in some]', time.time() - t0))
    return 0


def check(prop, spec):
    t0 = time.time()
    known = known_for(prop)
    results, bad, errors = [], [], []
    if spec.get('parts'):
        results, bad, errors = check_cpp(prop, spec, known)
    for m in spec.get('modules', ()):
        r, b, e = pymc.check(m, dict(tier=TIER, known=[k['key'] for k in known], jobs=JOBS))
        results += r
        bad += [({}, x, '') for x in b]
        errors += e
    return finish(prop, spec, results, bad, errors, known, t0)


def main():
    if len(sys.argv) > 1 and sys.argv[1] == '--setup':
        for p, s in sorted(CHECKS.items()):
            if s.get('parts'):
                cpp_jobs(p, s)
            if s.get('modules'):
                pymc.setup()
        print('setup done')
        return 0
    if len(sys.argv) > 2 and sys.argv[1] == '--replay':
        rec = json.load(open(sys.argv[2]))
        if rec.get('module'):
            return pymc.replay(rec['module'], rec)
        exe = harness_exe(rec['src'], rec['variant'])
        a = ['--harness', rec['harness'], '--bound', str(rec['bound']), '--replay', ','.join(map(str, rec['choices'])) or ',']
        if rec.get('tier') == 'thorough':
            a.append('--thorough')
        rc, log, res = run_job(exe, a, 900)
        print(log)
        print(json.dumps(res, indent=1) if res else 'no verdict, rc=%s' % rc)
        return 1 if (res and res['verdict'] == 'violation') or rc == 66 else 0
    prop = sys.argv[1]
    spec = CHECKS[prop]
    try:
        return check(prop, spec)
    except build.BuildError as e:
        print('BUILD ERROR\n%s' % e)
        return 2


if __name__ == '__main__':
    sys.exit(main())
