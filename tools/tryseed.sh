#!/bin/bash
# tryseed.sh ID...: demo on the clean tree and with the patch, in scratch copies of HEAD (no build of the test suite)
for id in "$@"; do
  W=$(mktemp -d); git -C /repo archive HEAD | tar x -C $W
  D=$(mktemp -d); cp -a /verif/seeded/$id/. $D/; rm -f $D/patch.diff $D/meta.json
  (cd $W && timeout 300 bash $D/demo.sh >$D/o1 2>&1); a=$?
  (cd $W && git init -q . && git apply /verif/seeded/$id/patch.diff && timeout 300 bash $D/demo.sh >$D/o2 2>&1); b=$?
  echo "$id clean=$a patched=$b"; [ $a = 0 ] || tail -5 $D/o1; [ $b = 1 ] || tail -5 $D/o2
  rm -rf "$W" "$D"
done
