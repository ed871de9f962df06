#!/bin/bash
# Development only: tries the check of each planted bug's property (or CHECKS="C01 C02") on it.
for id in "$@"; do
  d=/verif/seeded/$id
  git -C /repo apply $d/patch.diff || { echo "$id does not apply"; continue; }
  for p in ${CHECKS:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}; do
    t=$SECONDS
    out=$(cd /verif && timeout 900 python3 check.py $p 2>&1); rc=$?
    echo "$id $p exit $rc ($((SECONDS - t)) s): $(echo "$out" | tail -2 | tr '\n' ' ' | cut -c1-330)"
  done
  git -C /repo checkout -- .
done
