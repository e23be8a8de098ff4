#!/bin/bash
# runs every registered check in parallel, prints what is not quiet
cd /verif && python3 -c "
import json; print('\n'.join(c['property_id'] if 'property_id' in c else c['property'] for c in json.load(open('MANIFEST.json'))['checks']))" | xargs -P 8 -I{} sh -c 'python3 check.py {} > /tmp/w/all.{}.log 2>&1; rc=$?; [ $rc = 0 ] || { echo "{} rc=$rc"; grep -v "^  rule\|KNOWN" /tmp/w/all.{}.log | head -5; }'
