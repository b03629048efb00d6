#!/usr/bin/env python3
"""Build and test a tree of /repo (cwd independent); prints the stable tests that no longer pass."""
import json, subprocess, sys, tempfile, os
out = tempfile.mktemp()
r = subprocess.run(['bash', '/opt/vp/build.sh'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd='/repo')
if r.returncode:
    print(r.stdout.decode(errors='replace')[-3000:]); sys.exit(2)
subprocess.run(['bash', '/opt/vp/test.sh', out], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, cwd='/repo')
b = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
o = set(json.load(open(out))['passed']); os.unlink(out)
print('stable %d, passing %d, missing %d %s' % (len(b), len(b & o), len(b - o), sorted(b - o)[:5]))
sys.exit(1 if b - o else 0)
