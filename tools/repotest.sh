#!/bin/bash
# Builds /repo, runs its tests, prints stable tests that no longer pass.
bash /opt/vp/build.sh >/tmp/build.log 2>&1 || { tail -20 /tmp/build.log; echo BUILD-FAILED; exit 1; }
bash /opt/vp/test.sh /tmp/o.json >/tmp/test.log 2>&1
python3 - <<'PY'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/o.json'))
st=b['stable']; st=set(st if isinstance(st,list) else st.keys())
ps=set(o['passed'] if isinstance(o['passed'],list) else o['passed'].keys())
miss=sorted(st-ps)
print('stable',len(st),'missing',len(miss)); print('\n'.join(miss[:20]))
sys.exit(1 if miss else 0)
PY
