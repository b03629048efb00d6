cd /verif; python3 - "$@" <<'P'
import sys, os
sys.path[:0]=['/verif/mc','/verif/checks']
import pymc, json
m=sys.argv[1]; tier=sys.argv[2] if len(sys.argv)>2 else 'quick'
if len(sys.argv)>3: os.environ['VERIF_ONLY']=sys.argv[3]
os.environ['VERIF_VERBOSE']='1'
import time; t=time.time()
r,b,e=pymc.check(m,dict(tier=tier,known=[],jobs=8))
print('errors',e,'%.1f s'%(time.time()-t))
P
