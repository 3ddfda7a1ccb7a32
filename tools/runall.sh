#!/bin/bash
# run checks one after another: tools/runall.sh [ids]
cd "$(dirname "$0")/.."
ids="$*"; [ -n "$ids" ] || ids=$(python3 -c "import json;print(' '.join(c['property'] for c in json.load(open('MANIFEST.json'))['checks']))")
for i in $ids; do s=$(date +%s); timeout 900 python3 check.py $i > /tmp/run.$i.log 2>&1; rc=$?; echo "$i rc=$rc $(( $(date +%s) - s ))s $(grep -m1 -E 'VIOLATION|FAIL|error' /tmp/run.$i.log | cut -c1-200)"; done
