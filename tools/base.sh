#!/bin/bash
# runs /repo's own tests and says which stable ones no longer pass
bash /opt/vp/build.sh >/tmp/bld.log 2>&1 || { tail /tmp/bld.log; exit 1; }
bash /opt/vp/test.sh /tmp/o.json >/dev/null 2>&1
python3 -c "
import json
o=json.load(open('/tmp/o.json')); b=json.load(open('/opt/vp/BASELINE.json'))
p=set(o['passed']); m=[t for t in b['stable'] if t not in p]
print('stable',len(b['stable']),'broken',len(m)); print('\n'.join(m[:20]))"
