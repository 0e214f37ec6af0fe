#!/bin/bash
# trybug.sh <id> [properties...]: runs checks with seeded/<id> applied to /repo, and undoes it.
id=$1; shift; d=/verif/seeded/$id
props="$*"; [ -n "$props" ] || props=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
git -C /repo diff --quiet || { echo "/repo is not clean"; exit 3; }
git -C /repo apply $d/patch.diff || exit 3
for p in $props; do
  s=$(date +%s); /verif/run.sh $p --root /tmp/trybug-root >/tmp/trybug.out 2>&1; rc=$?
  echo "$id $p rc=$rc $(($(date +%s)-s))s $(grep -a -m1 -E 'shrunk|failed:|regression|dies|inconcl|did not' /tmp/trybug.out | cut -c1-300)"
done
git -C /repo checkout -q -- .
