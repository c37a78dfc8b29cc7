#!/bin/bash
# catch.sh [ID...]: runs the check of each planted change's property against it (in a scratch copy, via SYMX_REPO)
cd "$(dirname "$0")/.."; . ./env.sh
for d in ${@:-$(ls seeded)}; do
  d=$(basename $d); w=/tmp/catch_$d; rm -rf "$w"; cp -a /repo "$w"; git -C "$w" apply "$PWD/seeded/$d/patch.diff" || echo "PATCH FAILS $d"
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  SYMX_REPO=$w /opt/pvenv/bin/python check.py $p --no-evidence > /tmp/catch_$d.log 2>&1; rc=$?
  echo "$d $p rc=$rc $(grep -m1 VIOLATION /tmp/catch_$d.log) $(grep -A1 -m1 'violated' /tmp/catch_$d.log | tail -1 | cut -c1-150)"
  rm -rf "$w"
done
