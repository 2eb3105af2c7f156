#!/bin/bash
# all checks on the tree, four at a time; prints those that are not quiet
cd "$(dirname "$0")/.."
python3 - <<'P' | xargs -P 4 -I{} sh -c 'python3 check.py {} quick > /tmp/all.{}.txt 2>&1; r=$?; echo "{} $r $(tail -1 /tmp/all.{}.txt)"' | sort
import json
for c in json.load(open('MANIFEST.json'))['checks']:
    print(c['property_id'] if 'property_id' in c else c['property'])
P
