#!/bin/bash
# seedcheck.sh [id...]: runs the check of each seed's property on a scratch clone with the seed applied
cd /verif/seeded
for i in ${@:-*}; do
  p=$(python3 -c "import json;print(json.load(open('$i/meta.json'))['property'])")
  t=$(mktemp -d); git clone -q /repo $t/r; git -C $t/r apply /verif/seeded/$i/patch.diff
  cp /verif/evidence/$p.json $t/e 2>/dev/null; cp /verif/evidence/$p.replay.txt $t/er 2>/dev/null
  s=$(date +%s)
  o=$(VERIF_REPO=$t/r VERIF_SEED=1 VERIF_TIER=quick python3 /verif/check.py $p 2>&1); rc=$?
  echo "$i $p rc=$rc $(($(date +%s)-s))s $(echo "$o" | grep VIOLATION | head -2)"
  if [ -n "$V" ]; then echo "$o" | tail -20; fi
  cp $t/e /verif/evidence/$p.json 2>/dev/null; cp $t/er /verif/evidence/$p.replay.txt 2>/dev/null
  rm -rf "$t"
done
