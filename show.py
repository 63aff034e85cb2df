#!/usr/bin/env python3
"""show.py UNIT fn...: print extracted bodies (developer aid)"""
import sys; sys.path.insert(0,'/verif')
from vlib.vc import *
u=sys.argv[1]
cs=parse_contracts(os.path.join(VERIF,'contracts',u+'.vc')) if os.path.exists(os.path.join(VERIF,'contracts',u+'.vc')) else []
want=sys.argv[2:]
have={c.path for c in cs}
for w in want:
    if '(' in w:
        p,a=w.split('('); 
        if p not in have: cs.append(Contract(p,[x.strip() for x in a.rstrip(')').split(',') if x.strip()],'r',0))
names=[w.split('(')[0] for w in want]
ex=extract(u,cs)
for f in ex['fns']:
    if f['contract'] in names or f['contract'].split('::')[-1] in names:
        print(f['path'],f['recv'],[(p['name'],p['ty']) for p in f['params']],f['ret'],f['errs'],f['loops'],'CALLS',f['called']); print(f['body'])
