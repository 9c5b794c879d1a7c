#!/bin/bash
# seedtest.sh ID...: demo on the clean tree and with the change, then the property's own quick check with the change
for i in "$@"; do
  S=/verif/seeded/$i; P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
  (cd /repo && bash $S/demo.sh) > /tmp/demo.out 2>&1; a=$?
  [ $a != 0 ] && tail -3 /tmp/demo.out
  git -C /repo apply $S/patch.diff || continue
  (cd /repo && bash $S/demo.sh) > /tmp/demo.out 2>&1; b=$?
  o=$(cd /verif && VERIF_SEED=1 timeout 900 ./check.sh $P quick 2>&1 | grep VIOLATION | head -1)
  git -C /repo checkout -q -- .
  echo "$i: demo clean=$a changed=$b; $P: ${o:-MISSED}  ($(tail -1 /tmp/demo.out | cut -c1-150))"
done
