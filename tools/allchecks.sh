#!/bin/bash
# every registered check on the unchanged tree
cd "$(dirname "$0")/.."
for c in $(python3 -c "import json;print(' '.join(k.get('property_id') or k.get('property') or k.get('id') for k in json.load(open('MANIFEST.json'))['checks']))"); do
 s=$(date +%s); o=$(python3 -m sa.check $c); rc=$?; e=$(date +%s)
 echo "$c rc=$rc $((e-s))s $(echo "$o" | tail -1 | cut -c1-${1:-260})"
done
