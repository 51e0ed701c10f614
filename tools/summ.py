import sys,json,collections
n=0;v=collections.Counter();ex={};cov=collections.Counter();h=set();st=0
for l in sys.stdin:
    try: d=json.loads(l)
    except Exception as e: print("BAD",l[:300]); continue
    n+=1; h.add(d.get('hash')); st+=d.get('steps',0)
    for k,x in d['cov'].items(): cov[k]+=x
    if 'viol' in d:
        k=d['viol']+': '+d['msg'][:160]
        import re
        k=re.sub(r'\d+','N',k)
        v[k]+=1; ex.setdefault(k,[]).append((d['profile'],d['seed'],d.get('inject','')))
print(n,'cases',len(h),'distinct',st,'steps')
for k,c in v.most_common(): print(c,k,ex[k][:4])
if '-c' in sys.argv: print(dict(sorted(cov.items())))
