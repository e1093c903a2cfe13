#!/bin/bash
# every check once on the current tree: id, exit code, seconds
cd "$(dirname "$0")/.."
for c in ${@:-$(python3 -c "
import json
print(' '.join(x['property'] if 'property' in x else x['id'] for x in json.load(open('MANIFEST.json'))['checks']))")}; do
s=$(date +%s.%N); VP_EVID=${VP_EVID:-/tmp/ev} timeout 900 ./check $c ${TIER:-quick} > /tmp/ev/out.$c 2>&1; rc=$?; e=$(date +%s.%N)
printf "%s rc=%s %.1fs %s\n" $c $rc $(echo "$e-$s"|bc) "$(grep -c "VIOLATION\|internal error" /tmp/ev/out.$c)"; done
