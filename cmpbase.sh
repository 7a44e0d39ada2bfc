#!/bin/bash
# cmpbase.sh OUT.json: compare a test result with the baseline
python3 - "$1" <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json'));o=json.load(open(sys.argv[1]))
m=[t for t in b['stable'] if t not in set(o['passed'])]
print('missing',len(m),m[:10])
P
