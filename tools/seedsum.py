import re,json,sys
t=open(sys.argv[1]).read()
for m in re.finditer(r'^([\w-]+) (\{.*?^\})',t,re.S|re.M):
    d=json.loads(m[2]); print(m[1], d.get('apply') or '', (d.get('tests') or '')[-60:], 'P',d.get('demo_patched'),'C',d.get('demo_clean'), [ (k,v[0],v[1][:1]) for k,v in d.items() if k[0]=='C'])
