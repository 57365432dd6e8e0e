#!/bin/bash
# all checks on the unchanged tree, in parallel
cd "$(dirname "$0")/.."
python3 -c "
import json
for c in json.load(open('MANIFEST.json'))['checks']: print(c['property'])" | xargs -P ${1:-6} -I{} sh -c 'SA_EVIDENCE=/tmp/w/evc timeout 900 python3 -m sa.run {} quick > /tmp/w/clean_{}.log 2>&1; echo "{} $? $(tail -1 /tmp/w/clean_{}.log | cut -c1-150)"'
