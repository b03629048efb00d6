#!/usr/bin/env python3
"""Runs the scheduler and the race detector on programs whose verdicts are known."""
import json, os, subprocess, sys, tempfile
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))))
from mc import build
exe = build.harness('selftest', 'race', with_lib=False)
bad = 0
for l in subprocess.run([exe, '--list'], stdout=subprocess.PIPE).stdout.decode().splitlines():
    n = l.split('\t')[0]
    r = json.loads(subprocess.run([exe, '--harness', n], stdout=subprocess.PIPE).stdout)
    want = 'violation' if n.startswith('bad') else 'ok'
    print('%-16s %-10s %6d executions  %s' % (n, r['verdict'], r['executions'], r['message'][:90]))
    bad += r['verdict'] != want
sys.exit(bad)
