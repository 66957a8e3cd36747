#!/bin/bash
# runs the repository's tests and compares with the stable list
bash ${BASE:-/opt/vp}/test.sh ${BASE:-/tmp}/o.json >/dev/null 2>&1; python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json'));o=json.load(open('${BASE:-/tmp}/o.json'))
miss=sorted(set(b['stable'])-set(o['passed'])); print('missing',len(miss),miss[:10])
P
