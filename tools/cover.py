"""Development aid: which of the repository's functions and blocks /tmp/fm.out (FMLINT_COVER=1) never reached."""
import json,sys
seen={};fns=[]
for l in open('/tmp/fm.out'):
    r=json.loads(l)
    if 'visited' in r:
        for k,b in r['visited']: seen.setdefault(k,set()).update(b)
    elif 'fn' in r: fns.append(r)
for r in fns:
    v=seen.get(r['id'],set())
    miss=[b for b in r['blocks'] if b[0] not in v]
    if not v: print('NEVER',r['fn'],r['loc'], 'pub' if r['pub'] else '', 'UNSAFE' if r['unsafe'] else '')
    elif miss and '-v' in sys.argv: print('PART ',r['fn'],r['loc'],sorted({b[1] for b in miss})[:6],len(miss),len(r['blocks']))
    for u in r['unsafe']:
        if '-u' in sys.argv: print('UNSAFE',u,'visited' if u[0] in v else 'not visited',r['fn'])
    for u in r['panics']:
        if '-p' in sys.argv: print('PANIC',u,'visited' if u[0] in v else 'not visited',r['fn'])
print(len(fns),'functions',sum(1 for r in fns if r['id'] in seen),'reached')
