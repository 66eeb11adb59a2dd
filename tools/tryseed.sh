#!/bin/bash
# tryseed.sh SEED [CHECK...]: run checks (default: the seed's property) against a planted bug in a scratch copy
S=/tmp/seed; R=$S/repo; V=$(dirname "$(dirname "$(realpath "$0")")")
git -C $R checkout -q -- . && git -C $R apply $V/seeded/$1/patch.diff || exit 3
ids="${@:2}"; [ -z "$ids" ] && ids=$(python3 -c "import json;print(json.load(open('$V/seeded/$1/meta.json'))['property'])")
for c in $ids; do
  out=$(cd $V && VERIF_REPO=$R VERIF_BUILD=$S/vbuild timeout 1500 python3 bin/check $c 2>&1); rc=$?
  echo "$1 $c rc=$rc $(echo "$out" | grep -c "^VIOLATION property=$c") $(echo "$out" | tail -1 | cut -c1-160)"
done
git -C $R checkout -q -- .
