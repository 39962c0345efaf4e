#!/bin/bash
# basetest.sh: runs the repository's tests and compares them with the baseline's stable ones
bash /opt/vp/build.sh >/dev/null 2>&1 || { echo BUILD FAILS; exit 1; }
bash /opt/vp/test.sh /tmp/basetest.json >/dev/null 2>&1
python3 - <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; t=json.load(open('/tmp/basetest.json'))['passed']
m=[x for x in b if x not in t]
print('MISSING',m) if m else print('all',len(b),'stable tests pass')
sys.exit(1 if m else 0)
P
