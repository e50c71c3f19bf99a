#!/bin/bash
# run /repo's stable tests and list those that fail
bash /opt/vp/build.sh >/tmp/vb.log 2>&1 || { tail -20 /tmp/vb.log; exit 1; }
bash /opt/vp/test.sh /tmp/vt.json >/tmp/vt.log 2>&1
python3 -c "
import json
o=json.load(open('/tmp/vt.json')); b=json.load(open('/opt/vp/BASELINE.json'))
bad=[t for t in b['stable'] if t not in o['passed']]
print('stable', len(b['stable']), 'failing', bad)"
