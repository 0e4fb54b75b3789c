#!/bin/bash
# Runs the repository's tests and compares with the stable list.
OUT=$(mktemp /tmp/out.XXXX.json); bash /opt/vp/test.sh $OUT > /tmp/regress.log 2>&1
python3 - $OUT <<'PY'
import json,sys
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); o=json.load(open(sys.argv[1]))
print('stable', len(b), 'lost', sorted(b-set(o['passed'])), 'failed', o['failed'])
PY
rm -f $OUT
