import json,glob,sys
from collections import Counter
t=Counter(); v={}; errs=Counter(); complete=True; covers=Counter()
for f in glob.glob(sys.argv[1]+'/part*'):
    d=json.load(open(f)); complete&=d['complete']
    for k in d:
        if isinstance(d[k],(int,float)) and not isinstance(d[k],bool):
            if k in('max_path','called_total'): t[k]=max(t[k],d[k])
            else: t[k]+=d[k]
    for x in d['viols']:
        v.setdefault((x['entry'],x['kind'],x['msg'],' < '.join(x['stack'][:5])),x)
    for e in d['errors']: errs[e]+=1
    for e,k,n in d['covers']: covers[(e,k)]+=n
print('complete',complete,dict(t)); print('covers',dict(covers))
for k,x in list(v.items())[:12]:
    print('VIOL',k); print('   input',','.join(map(str,x['input'])),'sched',','.join(str(s) for s in x['sched']))
for e,n in errs.most_common(6): print('ERR',n,e[:400])
