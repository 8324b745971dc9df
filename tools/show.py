import json,sys,collections
n=int(sys.argv[2]) if len(sys.argv)>2 else 6
c=collections.Counter()
for l in open(sys.argv[1]):
    d=json.loads(l);f=d['fail'];k=(f['oracle'],f['what']);c[k]+=1
    if c[k]<=n:
        det=dict(f['detail']); det={k:det[k] for k in sorted(det,key=lambda k:k in('text','want','got'))}
        for x in('text','want','got'):
            if x in det and isinstance(det[x],str) and len(det[x])>500 and 'diff' in det: det.pop(x)
        print(d['case'].get('seed'),k,json.dumps(det,ensure_ascii=False)[:1200]);print()
print(c)
