"""Explorer for harnesses that exercise the Python interface.

A harness is a function h(ch, bound) decorated with @harness; every decision it takes goes through
ch.choose / ch.pick, and the explorer runs it once for every sequence of decisions (depth-first, each
execution from a cleared registry).  The tree is split over worker processes by the decisions taken up
front; a worker that dies or stops answering leaves the decisions of its current execution behind, and
those are replayed on their own before anything is reported."""
import hashlib
import importlib
import json
import mmap
import os
import shutil
import signal
import struct
import subprocess
import sys
import tempfile
import threading
import time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
JLEN = 1 << 16
STALL = 240                     # seconds without progress before an execution counts as not answering


class Violation(Exception):
    pass


class Skip(BaseException):
    pass


class Diverged(Exception):
    pass


REG = {}


def harness(quick, thorough, doc='', split=2):
    def deco(f):
        REG.setdefault(f.__module__, {})[f.__name__] = dict(fn=f, quick=quick, thorough=thorough, doc=doc, split=split)
        return f
    return deco


class Choices:
    """One execution's decisions, and what it reports."""

    def __init__(self, run, prefix):
        self.run, self.prefix, self.trace, self.notes = run, prefix, [], []
        self.tier = run.tier

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def choose(self, n, label=None):
        assert n > 0
        i = len(self.trace)
        v = 0
        if i < len(self.prefix):
            v = self.prefix[i][0]
            if self.prefix[i][1] not in (0, n) or v >= n:
                raise Diverged('decision %d: %d alternatives, %d before' % (i, n, self.prefix[i][1]))
        else:
            self.run.transitions += 1
        self.trace.append((v, n))
        self.run.journal(self.trace)
        if self.run.shards > 1 and len(self.trace) == self.run.split:
            self.run.mine(tuple(t[0] for t in self.trace))
        return v

    def pick(self, seq, label=None):
        v = seq[self.choose(len(seq))]
        if label is not None:
            self.note('%s: %s' % (label, v if isinstance(v, (str, int, float)) else (v[0] if isinstance(v, tuple) and v else v)))
        return v

    def flag(self, label=None):
        return bool(self.pick((0, 1), label))

    def note(self, s):
        self.notes.append(str(s)[:400])

    def fail(self, msg):
        raise Violation(msg)

    def violation(self, key, msg):
        """A violation that the committed list of known findings may name."""
        if key in self.run.known:
            self.run.count('known:' + key)
            return
        raise Violation(msg)

    def check(self, ok, msg):
        if not ok:
            raise Violation(msg() if callable(msg) else msg)

    def state(self, key):
        self.run.states.add(hashlib.blake2b(repr(key).encode(), digest_size=8).digest())

    def outcome(self, s):
        o = self.run.outcomes
        o[s] = o.get(s, 0) + 1

    def count(self, k, n=1):
        self.run.count(k, n)

    def scratch(self):
        """An empty directory, current until the end of the execution."""
        d = os.path.join(self.run.home, 'x')
        os.chdir(self.run.home)
        if os.path.isdir(d):
            shutil.rmtree(d)
        os.mkdir(d)
        os.chdir(d)
        return d


class Run:
    def __init__(self, name, spec, bound, tier, known, shard, shards, home, journal=None):
        self.name, self.spec, self.bound, self.tier, self.known = name, spec, bound, tier, set(known)
        self.shard, self.shards, self.home, self.jmap = shard, shards, home, journal
        self.split = spec['split']
        self.transitions = self.executions = 0
        self.states, self.outcomes, self.counters, self.heads = set(), {}, {}, {}

    def count(self, k, n=1):
        self.counters[k] = self.counters.get(k, 0) + n

    def journal(self, trace):
        if self.jmap is not None:
            b = json.dumps([t[0] for t in trace]).encode()[:JLEN - 16]
            self.jmap[8:8 + 8 + len(b)] = struct.pack('<Q', len(b)) + b

    def tick(self):
        if self.jmap is not None:
            self.jmap[0:8] = struct.pack('<Q', self.executions + 1)

    def mine(self, head):
        i = self.heads.setdefault(head, len(self.heads))
        if (i + i // self.shards) % self.shards != self.shard:
            raise Skip()

    def one(self, prefix):
        """One execution: (trace, verdict, message, notes)."""
        ch = Choices(self, prefix)
        try:
            self.spec['fn'](ch, self.bound)
        except Skip:
            return ch, 'skip', ''
        except Violation as e:
            return ch, 'violation', str(e)
        except Diverged as e:
            return ch, 'diverged', str(e)
        except Exception as e:
            import traceback
            tb = traceback.format_exc().strip().split('\n')
            return ch, 'violation', 'unexpected %s: %s [%s]' % (type(e).__name__, e, ' | '.join(x.strip() for x in tb[-7:-1]))
        # an execution too short to be assigned belongs to the first worker
        if self.shards > 1 and len(ch.trace) < self.split and self.shard:
            return ch, 'skip', ''
        return ch, 'ok', ''

    def explore(self, deadline):
        prefix = []
        while True:
            ch, v, msg = self.one(prefix)
            if v in ('violation', 'diverged'):
                return dict(verdict=v, message=msg, choices=[t[0] for t in ch.trace], notes=ch.notes)
            if v == 'ok':
                self.executions += 1
            self.tick()
            t = ch.trace
            while t and t[-1][0] + 1 >= t[-1][1]:
                t.pop()
            if not t:
                return dict(verdict='ok', message='')
            t[-1] = (t[-1][0] + 1, t[-1][1])
            prefix = t
            if time.time() > deadline:
                return dict(verdict='partial', message='time cap reached')

    def result(self, r):
        top = sorted(self.outcomes.items(), key=lambda kv: -kv[1])
        return dict(r, harness=self.name, bound=self.bound, executions=self.executions, transitions=self.transitions,
                    state_keys=[s.hex() for s in self.states], outcomes=['%s (%d)' % (k, n) for k, n in top[:8]],
                    outcome_keys=[k for k, _ in top[:20000]], counters=self.counters)


# ---- worker side ----------------------------------------------------------
def worker(argv):
    a = json.loads(argv[0])
    for p in (os.path.join(VERIF, 'checks'), HERE, a['tree']):
        sys.path.insert(0, p)
    os.environ['OMP_NUM_THREADS'] = a.get('omp', '1')
    devnull = os.open(os.devnull, os.O_RDWR)
    os.dup2(devnull, 0)
    os.dup2(devnull, 1)
    err = os.open(a['err'], os.O_RDWR | os.O_CREAT | os.O_APPEND)
    os.dup2(err, 2)
    with open(a['journal'], 'r+b') as f:
        jm = mmap.mmap(f.fileno(), JLEN)
    home = a['home']
    os.chdir(home)
    import pyenv
    pyenv.start(a)
    mod = importlib.import_module(a['module'])
    spec = REG[mod.__name__][a['harness']]
    run = Run(a['harness'], spec, a['bound'], a['tier'], a['known'], a['shard'], a['shards'], home, jm)
    if a.get('replay') is not None:
        ch, v, msg = run.one([(c, 0) for c in a['replay']])
        r = dict(verdict=v, message=msg, choices=[t[0] for t in ch.trace], notes=ch.notes)
    else:
        r = run.explore(time.time() + a['time'])
    with open(a['out'] + '.tmp', 'w') as f:
        json.dump(run.result(r), f)
    os.replace(a['out'] + '.tmp', a['out'])
    os._exit(0)


# ---- driver side ----------------------------------------------------------
def spawn(job, a, tmp, stop=None):
    import build
    if stop is not None and stop.is_set():
        return dict(verdict='partial', message='stopped after a violation', harness=job['harness'], bound=job['bound'])
    d = tempfile.mkdtemp(dir=tmp)
    home = os.path.join(d, 'home')
    os.mkdir(home)
    a = dict(a, module=job['module'], harness=job['harness'], bound=job['bound'], home=home, err=os.path.join(d, 'err'),
             journal=os.path.join(d, 'journal'), out=os.path.join(d, 'out'))
    with open(a['journal'], 'wb') as f:
        f.write(b'\0' * JLEN)
    env = dict(build.PYENV, PYTHONPATH='', OMP_NUM_THREADS='1', PYTHONHASHSEED='0', TMPDIR=d)
    p = subprocess.Popen([build.PYTHON, os.path.join(HERE, 'pymc_worker.py'), json.dumps(a)], env=env, stdin=subprocess.DEVNULL,
                         stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, cwd=home, start_new_session=True)
    last, since = -1, time.time()
    stalled = stopped = False
    while p.poll() is None:
        time.sleep(0.05)
        with open(a['journal'], 'rb') as f:
            now = f.read(4096)
        if now != last:
            last, since = now, time.time()
        if stop is not None and stop.is_set():
            stopped = True
            os.killpg(p.pid, signal.SIGKILL)
        elif now == last and time.time() - since > STALL:
            stalled = True
            os.killpg(p.pid, signal.SIGKILL)
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        pass
    p.wait()
    if os.path.exists(a['out']):
        with open(a['out']) as f:
            r = json.load(f)
    elif stopped:
        r = dict(verdict='partial', message='stopped after a violation', harness=job['harness'], bound=job['bound'])
    else:
        with open(a['journal'], 'rb') as f:
            b = f.read()
        n = struct.unpack('<Q', b[8:16])[0]
        choices = json.loads(b[16:16 + n]) if n else None
        try:
            with open(a['err'], 'rb') as f:
                tail = f.read()[-1500:].decode(errors='replace')
        except OSError:
            tail = ''
        r = dict(verdict='died', message='the interpreter %s: %s' % (
            'stopped answering' if stalled else 'was ended by signal %d' % -p.returncode if p.returncode < 0 else 'exited with %s' % p.returncode, tail),
            choices=choices, harness=job['harness'], bound=job['bound'], started=n > 0)
    if stop is not None and r['verdict'] in ('violation', 'died'):
        stop.set()
    shutil.rmtree(d, ignore_errors=True)
    return r


def merge(job, rs):
    out = dict(harness=job['harness'], bound=job['bound'], doc=job['doc'], verdict='ok', message='', executions=0, transitions=0, counters={})
    keys, outs, samples = set(), set(), []
    for r in rs:
        out['executions'] += r.get('executions', 0)
        out['transitions'] += r.get('transitions', 0)
        keys.update(r.get('state_keys', ()))
        outs.update(r.get('outcome_keys', ()))
        samples += r.get('outcomes', [])[:3]
        for k, v in r.get('counters', {}).items():
            out['counters'][k] = out['counters'].get(k, 0) + v
        if r['verdict'] not in ('ok',) and out['verdict'] in ('ok', 'partial'):
            out.update(verdict=r['verdict'], message=r['message'], choices=r.get('choices'), notes=r.get('notes'))
    out.update(states=len(keys), distinct_outcomes=len(outs), outcomes=samples[:8])
    return out


def check(modname, ctx):
    import build
    tree, orc = build.pytree(), build.oracle()
    mod = importlib.import_module(modname)
    hs = REG[mod.__name__]
    tier, shards = ctx['tier'], ctx['jobs']
    tmax = 700 if tier == 'quick' else 3000
    base = dict(tree=tree, oracle=orc, tier=tier, known=ctx['known'], time=tmax)
    results, bad, errors = [], [], []
    tmp = tempfile.mkdtemp(prefix='slatpy-')
    only = os.environ.get('VERIF_ONLY')
    try:
        jobs = []
        for n, h in sorted(hs.items()):
            if only and only != n:
                continue
            jobs.append(dict(module=modname, harness=n, bound=h['thorough' if tier == 'thorough' else 'quick'], doc=h['doc']))
        stops = {j['harness']: threading.Event() for j in jobs}
        todo = [(j, s) for j in jobs for s in range(shards)]
        with ThreadPoolExecutor(shards) as ex:
            futs = [(j, ex.submit(spawn, j, dict(base, shard=s, shards=shards), tmp, stops[j['harness']])) for j, s in todo]
            byj = {}
            for j, f in futs:
                byj.setdefault(j['harness'], []).append(f)
            for j in jobs:
                t0 = time.time()
                rs = [f.result() for f in byj[j['harness']]]
                # deaths first get a second look: the same decisions, alone
                r = merge(j, rs)
                r['wall'] = round(time.time() - t0, 1)
                if r['verdict'] in ('violation', 'died'):
                    n, rr = 0, None
                    if r.get('choices') is None:
                        errors.append('%s: no execution started: %s' % (j['harness'], r['message']))
                        results.append(r)
                        continue
                    for _ in range(2):
                        rr = spawn(j, dict(base, shard=0, shards=1, replay=r['choices']), tmp)
                        n += rr['verdict'] in ('violation', 'died')
                    if n == 2:
                        r['verdict'] = 'violation'
                        r['notes'] = rr.get('notes') or r.get('notes')
                        bad.append(r)
                    else:
                        errors.append('%s: violation did not replay: %s %s' % (j['harness'], r['message'], r.get('choices')))
                elif r['verdict'] == 'diverged':
                    errors.append('%s: %s' % (j['harness'], r['message']))
                results.append(r)
                if os.environ.get('VERIF_VERBOSE'):
                    print('%-28s %-9s bound=%s exec=%d states=%d outcomes=%d %s %s' % (
                        r['harness'], r['verdict'], r['bound'], r['executions'], r['states'], r['distinct_outcomes'], r['message'][:1500], r.get('choices') or ''), flush=True)
                    for x in (r.get('notes') or [])[-30:]:
                        print('      ' + x)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    for r in bad:
        r['replay'] = dict(module=modname)
    return results, bad, errors


def replay(modname, rec):
    import build
    base = dict(tree=build.pytree(), oracle=build.oracle(), tier=rec.get('tier', 'quick'), known=[], time=600)
    tmp = tempfile.mkdtemp(prefix='slatpy-')
    try:
        j = dict(module=modname, harness=rec['harness'], bound=rec['bound'], doc='')
        r = spawn(j, dict(base, shard=0, shards=1, replay=rec['choices']), tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    print(json.dumps(r, indent=1)[:6000])
    return 1 if r['verdict'] in ('violation', 'died') else 0


def setup():
    import build
    build.pytree()
    build.oracle()
