#!/bin/bash
# runs the repository's tests and says whether every baseline test still passes
bash /opt/vp/test.sh /tmp/t.json >/dev/null 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/t.json'))
def names(d,k):
    v=d.get(k)
    return set(v if isinstance(v,list) else v.keys()) if v else set()
want=[k for k in b if isinstance(b[k],list)]
exp=set(b[[k for k in ('stable','passed','tests','pass') if k in b][0]])
got=names(t,'passed')
print(len(exp),'expected', len(got),'passed; missing:',sorted(exp-got)[:10])
P
