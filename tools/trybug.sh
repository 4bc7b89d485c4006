#!/bin/bash
# tools/trybug.sh <id> [props...]: runs checks (default: the property of the bug) against a seeded bug
id=$1; shift
P=${*:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")}
cd /verif
git -C /repo diff --quiet || { echo "/repo dirty"; exit 2; }
git -C /repo apply /verif/seeded/$id/patch.diff || exit 2
for p in $P; do
  timeout 900 bash run.sh check $p ${TIER:-quick} > /tmp/trybug.out 2>&1; rc=$?
  echo "$id $p rc=$rc $(grep -c ^VIOLATION /tmp/trybug.out) $(grep -A1 ^VIOLATION /tmp/trybug.out | sed -n 2p | cut -c1-160)"
done
git -C /repo checkout -- .
