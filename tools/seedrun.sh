#!/bin/bash
# tools/seedrun.sh [ID...]: run each planted bug's property on a patched copy of /repo (development aid)
. /opt/vp/env.sh
cd /verif; [ $# -gt 0 ] || set -- $(ls seeded)
for id; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  d=/tmp/sr-$id; rm -rf "/tmp/sr-$id"; git clone -q /repo "$d" && git -C "$d" apply "/verif/seeded/$id/patch.diff" || { echo "$id: apply failed"; continue; }
  /verif/bin/ginkgoverif -noevidence -repo "$d" -property "$p" >/tmp/sr.log 2>&1; rc=$?
  echo "$id $p rc=$rc $(grep -c ^VIOLATION /tmp/sr.log) $(grep -m1 rule= /tmp/sr.log | cut -c1-160)"
  rm -rf "/tmp/sr-$id"
done
