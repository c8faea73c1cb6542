#!/bin/bash
# run the repository's tests on its working tree and compare with the baseline
bash /opt/vp/test.sh /tmp/tr.json >/tmp/tr.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/tr.json'))
st=set(b['stable']); ps=set(r['passed']); print('missing', sorted(st-ps)[:10], len(st-ps))
P
