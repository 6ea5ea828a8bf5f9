#!/bin/bash
# one target, with debug output: tools/vt.sh specs.c18 FullTokenIterator
O=$(mktemp)
cd /verif && PYVC_DEBUG=1 PYTHONDONTWRITEBYTECODE=1 timeout ${T:-200} python3-vt tools/vrun.py $1 "$2" ${R:-/repo} $O; python3 - $O <<'P'
import json,sys,collections
d=json.load(open(sys.argv[1]))
o=d.pop('obligations')
print({k:(str(v)[-900:] if k=='trace' else v) for k,v in d.items() if k not in ('functions','level','note','inlined','solver_s')})
c=collections.Counter((x['status'],x['name']) for x in o)
for (s,n),k in c.items(): print(s,k,n)
for x in o:
    if x['status']!='valid': print(x['status'],x['backend'],x['s'],x['trail'][:60],x['name'], x.get('goal','')[:1500])
P
rm -f $O
