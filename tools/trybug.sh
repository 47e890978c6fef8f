#!/bin/bash
# usage: trybug.sh id... : runs the check of each planted bug's property against it
for id in "$@"; do
  d=/verif/seeded/$id
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  p=${PROP:-$p}
  git -C /repo apply $d/patch.diff || { echo "$id does not apply"; continue; }
  s=$(date +%s)
  out=$(VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick /verif/check.sh $p 2>/tmp/trybug.err); rc=$?
  git -C /repo checkout -- .
  echo "$id $p rc=$rc $(( $(date +%s)-s ))s $(echo "$out" | grep -v KNOWN | head -3 | tr '\n' ' ' | cut -c1-300)"
done
