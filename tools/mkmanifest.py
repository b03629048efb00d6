#!/usr/bin/env python3
"""Writes MANIFEST.json from the check list and the property list."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'mc'))
from checklist import CHECKS
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
SCHED = 'stateless model checking of the real code: exhaustive preemption-bounded schedules (own OpenMP runtime) with happens-before race detection'
HIST = 'stateless model checking of the real code: exhaustive operation histories against a reference model'
GRID = 'bounded exhaustive enumeration of configurations and inputs of the real code against an independent reference'
TECH = dict(C01=SCHED, C02=SCHED, C03=SCHED, C08=SCHED, C09=SCHED)
for c in ('C04', 'C05', 'C06', 'C07', 'C11', 'C19', 'C20', 'C21'):
    TECH[c] = HIST
NOTE_S = ('Every schedule of the listed small programs up to the stated number of preemptions, at the granularity of synchronisation operations; '
          'accesses in between are checked for races, which justifies that granularity. Trusts the replacement OpenMP runtime, the compiler and the C library.')
NOTE_H = 'Every history up to the stated depth on small models, results compared with a reference; longer histories and larger models are not covered. Trusts the reference model and the compiler.'
NOTE_G = 'Every combination of the listed finite sets of configurations and inputs, compared with an independently written reference within stated tolerances; values between grid points are not covered.'
checks = []
for p in props:
    i = p['id']
    if i not in CHECKS:
        continue
    t = TECH.get(i, GRID)
    checks.append(dict(property=i, quick_cmd='python3 run.py ' + i, thorough_cmd='VERIF_TIER=thorough python3 run.py ' + i,
                       evidence_file='evidence/%s.json' % i, technique=t, level='model_checking',
                       level_note=NOTE_S if t == SCHED else NOTE_H if t == HIST else NOTE_G))
m = dict(version=1, setup_cmd='python3 run.py --setup', checks=checks,
         not_applicable=[dict(property=p['id'], reason='The check for this property is not built yet.') for p in props if p['id'] not in CHECKS])
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')
print(len(checks), 'claimed')
