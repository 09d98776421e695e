import json,sys
from collections import Counter
tot=0;n=0;F=0;U=0;uc=Counter();fc=Counter();slow=[]
for l in open('/tmp/fm.out'):
    d=json.loads(l)
    if 'ob' not in d: continue
    tot+=d['ms'];n+=1
    if d['findings']:
        F+=1
        for f in d['findings']: fc[(f['kind'],f['label'],f['msg'].split('\n')[1].strip()[:70])]+=1
    if d['undecided']:
        U+=1; uc[d['undecided'][0].split('\n')[0][:100]]+=1
    slow.append((d['ms'],d['ob'],d['steps'],d['nodes']))
    if '-v' in sys.argv and (d['findings'] or d['undecided']): print('F' if d['findings'] else 'U',d['ob'],d['ms'])
slow.sort(reverse=True)
print(n,'obs',F,'findings',U,'undecided; total ms',tot)
for s in slow[:6]: print('  slow',s)
for k,v in fc.most_common(25): print('  F',v,k)
for k,v in uc.most_common(25): print('  U',v,k)
