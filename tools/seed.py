#!/usr/bin/env python3
"""Planted bugs: seed.py new ID PROPERTY FILE < edits ; seed.py verify ID... ; seed.py check ID [PROPERTY]...
`new` reads <<<<old====new>>>> blocks from stdin and writes seeded/ID/patch.diff; `verify` applies the patch to /repo,
builds, runs the stable tests, the demonstration and the check, and undoes it."""
import json, os, re, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, 'seeded')
def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **k)
def new(name, prop, needs, breaks, edits, demo_cpp=None, demo_sh=None, flags=''):
    d = os.path.join(S, name); os.makedirs(d, exist_ok=True)
    tmp = '/tmp/seedwork'; shutil.rmtree(tmp, ignore_errors=True)
    sh('git clone -q /repo %s' % tmp)
    for f, old, nw in edits:
        p = os.path.join(tmp, f); t = open(p, encoding='utf-8').read()
        assert t.count(old) == 1, (name, f, t.count(old), old)
        open(p, 'w', encoding='utf-8').write(t.replace(old, nw))
    diff = sh('git -C %s diff' % tmp).stdout
    open(os.path.join(d, 'patch.diff'), 'w').write(diff)
    shutil.rmtree(tmp)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    if demo_cpp:
        open(os.path.join(d, 'demo.cpp'), 'w').write(demo_cpp)
        demo_sh = CPP % flags
    open(os.path.join(d, 'demo.sh'), 'w').write(demo_sh); os.chmod(os.path.join(d, 'demo.sh'), 0o755)
CPP = '''#!/bin/bash
# Compiles demo.cpp with the library's own sources and runs it.
here=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
FLAGS="-g -O1 -std=gnu++11 -fopenmp -include functional -DBOOST_ALL_DYN_LINK -I/repo/src %s"
LIB="functions relationships maq fragility loss_functions comp_group structure lognormaldist caching context"
( for f in $LIB; do g++ $FLAGS -c /repo/src/$f.cpp -o $T/$f.o & done; g++ $FLAGS -c "$here/demo.cpp" -o $T/demo.o & wait ) > $T/log 2>&1
g++ $FLAGS $T/*.o -lboost_log -lboost_thread -lboost_system -lgsl -lgslcblas -lpthread -o $T/demo >> $T/log 2>&1 || { cat $T/log; exit 3; }
timeout 250 $T/demo
'''
def verify(name, checks=None, tests=True):
    d = os.path.join(S, name); meta = json.load(open(d + '/meta.json')); r = {}
    assert not sh('git -C /repo status --porcelain').stdout, 'dirty'
    try:
        a = sh('git -C /repo apply %s/patch.diff' % d)
        if a.returncode: return dict(apply=a.stdout)
        if tests:
            r['tests'] = sh('python3 %s/tools/repotest.py' % V).stdout.strip()[-120:]
            x = sh('bash %s/demo.sh' % d, cwd='/repo'); r['demo_patched'] = (x.returncode, x.stdout[-200:])
        for c in checks or [meta['property']]:
            x = sh('python3 run.py ' + c, cwd=V); r[c] = (x.returncode, [l for l in x.stdout.splitlines() if 'VIOLATION' in l or l.startswith('  ')][:3] or x.stdout[-300:])
    finally:
        sh('git -C /repo checkout -- .')
    if tests:
        sh('bash /opt/vp/build.sh'); x = sh('bash %s/demo.sh' % d, cwd='/repo'); r['demo_clean'] = (x.returncode, x.stdout[-200:])
    return r
if __name__ == '__main__':
    cmd, names = sys.argv[1], sys.argv[2:]
    if names == ['all']: names = sorted(os.listdir(S))
    for n in names:
        n, _, cs = n.partition(':')
        r = verify(n, cs.split(',') if cs else None, tests=(cmd == 'verify'))
        print(n, json.dumps(r, indent=1)); sys.stdout.flush()
