#!/bin/bash
# fixcommit.sh "<message>": build and run the stable tests on /repo's working tree, then commit.
set -e
bash /opt/vp/build.sh >/tmp/fc.log 2>&1 || { tail -30 /tmp/fc.log; echo BUILD FAILED; exit 1; }
bash /opt/vp/test.sh /tmp/fc.json >/tmp/fc2.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/fc.json'))
base=b['stable']
miss=[t for t in base if t not in r['passed']]
print(len(r['passed']),'passed; missing',miss)
import sys; sys.exit(1 if miss else 0)
P
cd /repo; git add -A tiny examples; git commit -qm "$1"; git log --oneline | head -1
