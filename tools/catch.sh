#!/bin/bash
# catch.sh [ID...]: run each planted bug's check on a patched copy of /repo, report caught / missed
cd /verif
ids=${@:-$(ls seeded)}
for i in $ids; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$i/meta.json'))['property'])")
  rm -rf /tmp/catch_$i; mkdir /tmp/catch_$i; git -C /repo archive HEAD | tar x -C /tmp/catch_$i
  cp -r /repo/config.h /tmp/catch_$i/ 2>/dev/null
  patch -s -d /tmp/catch_$i -p1 < seeded/$i/patch.diff
  out=$(PBC_REPO=/tmp/catch_$i timeout 900 python3-vt check.py $p 2>&1); rc=$?
  echo "$i $p rc=$rc $(echo "$out" | grep -c 'FAILED OBLIGATION') obligations | $(echo "$out" | grep VIOLATION | cut -c1-120) $(echo "$out" | tail -1)"
  rm -rf /tmp/catch_$i
done
