#!/bin/bash
# runseeds.sh [ids]: runs the check of each planted bug against a scratch copy of /repo with the bug
. <(grep '^export' /verif/check.sh)
cd /verif/seeded
ids=${@:-$(ls)}
for id in $ids; do
  tmp=$(mktemp -d /tmp/rs.XXXX); cp -a /repo $tmp/repo
  git -C $tmp/repo apply /verif/seeded/$id/patch.diff || { echo "$id: does not apply"; continue; }
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  s=$(date +%s); /verif/.build/govc -repo $tmp/repo check $p > $tmp/out 2>&1; rc=$?; e=$(date +%s)
  echo "$id $p rc=$rc $((e-s))s $(grep VIOLATION $tmp/out)"
  rm -rf "$tmp"
done
