#!/bin/bash
# catch.sh SEED...: runs the check of each planted bug's property against a scratch copy of HEAD with the patch
for id in "$@"; do
  W=$(mktemp -d); git -C /repo archive HEAD | tar x -C $W; (cd $W && git init -q . && git apply /verif/seeded/$id/patch.diff)
  P=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  ALAYA_REPO=$W timeout 600 python3 /verif/check.py $P > $W/out 2>&1; echo "$id $P exit=$?"; grep -v KNOWN $W/out | tail -${L:-2} | cut -c1-220
  rm -rf "$W"
done
