import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open(sys.argv[1]))
print(type(b), list(b)[:5] if isinstance(b,dict) else b[:2], list(o)[:5] if isinstance(o,dict) else o[:2])
st=b.get('stable') or b.get('passed') or b.get('tests')
ps=set(o['passed']) if 'passed' in o else {k for k,v in o.items() if v=='passed'}
miss=[t for t in st if t not in ps]
print(len(st),'stable; missing',len(miss),miss[:10])
