#!/bin/bash
# tryseed.sh ID...: apply each planted bug in a scratch copy; run build, demo (with/without), baseline tests (if TESTS=1), and this property's check
for id in "$@"; do
  S=/verif/seeded/$id; P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
  W=/tmp/try_$id; rm -rf $W; git clone -q /repo $W
  if ! git -C $W apply $S/patch.diff; then echo "$id: PATCH FAILS"; continue; fi
  out=$(cd /verif && VERIF_REPO=$W timeout 880 python3-vt check.py $P $EXTRA 2>&1); rc=$?
  echo "$id $P rc=$rc $(echo "$out" | grep -c '^VIOLATION') $(echo "$out" | grep '^VIOLATION' | head -2 | tr '\n' ' ') $(echo "$out" | tail -1)"
  rm -rf $W
done
