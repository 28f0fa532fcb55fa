#!/bin/bash
# all.sh [properties..]: every check once, one line each
cd /verif
for p in ${@:-$(python3 -c "import json;print(*[c['property'] for c in json.load(open('MANIFEST.json'))['checks']])")}; do
  s=$(date +%s); python3 check.py $p > /tmp/all.$p 2>&1; rc=$?; echo "$p rc=$rc $(( $(date +%s)-s ))s $(grep -v '^ ' /tmp/all.$p | tail -1 | cut -c1-150)"
done
