#!/bin/bash
# Runs /repo's tests and compares with the stable baseline.
o=$(mktemp); bash /opt/vp/test.sh $o >/tmp/baseline.log 2>&1
python3 - $o <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; r=json.load(open(sys.argv[1]))
p=set(r.get('passed') or r.get('pass') or [k for k,v in r.items() if v in('pass','passed')])
m=[t for t in b if t not in p]; print('stable missing:',len(m),m[:10],'passed',len(p))
sys.exit(bool(m))
P
