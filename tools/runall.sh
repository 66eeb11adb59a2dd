#!/bin/bash
# run the registered checks one after another: runall.sh [quick|thorough] [ID...]
cd "$(dirname "$0")/.."
tier=${1:-quick}; shift
ids=${@:-$(python3 -c 'import json;print(*[c["property"] for c in json.load(open("MANIFEST.json"))["checks"]])')}
for i in $ids; do
  s=$(date +%s); python3 bin/check $i --tier $tier > /tmp/runall-$i.log 2>&1; r=$?
  echo "$i rc=$r $(( $(date +%s) - s ))s $(tail -1 /tmp/runall-$i.log | cut -c1-200)"
done
