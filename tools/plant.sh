#!/bin/bash
# plant.sh <id>...: try planted bugs: patch applies, stable tests pass with it, the demonstration fails
# with it and passes without it, and whether the property's check catches it. Leaves /repo clean.
export CARGO_NET_OFFLINE=true
for id in "$@"; do
  d=/verif/seeded/$id
  prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo diff --quiet || { echo "/repo is not clean"; exit 1; }
  git -C /repo apply --check "$d/patch.diff" || { echo "$id: DOES NOT APPLY"; continue; }
  (cd /repo && timeout 300 bash "$d/demo.sh" >/tmp/plant.clean 2>&1); c=$?
  git -C /repo apply "$d/patch.diff"
  st=$(bash /verif/tools/stable.sh)
  (cd /repo && timeout 300 bash "$d/demo.sh" >/tmp/plant.bug 2>&1); b=$?
  s=$SECONDS
  (cd /verif && VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick timeout 900 ./run.sh "$prop" >/tmp/plant.check 2>&1); k=$?
  t=$((SECONDS - s))
  git -C /repo checkout -- .
  echo "$id [$prop] clean=$c bug=$b check=$k (${t}s) $st :: $(grep -m1 VIOLATION /tmp/plant.check)"
  [ $c = 0 ] || tail -5 /tmp/plant.clean
  [ $b != 0 ] || tail -5 /tmp/plant.bug
done
