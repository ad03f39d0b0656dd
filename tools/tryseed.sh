#!/bin/bash
# tryseed.sh ID... : demo on the clean tree, then apply, stable tests, demo, the property's check; always undone
cd /verif
for id in "$@"; do
  d=/verif/seeded/$id
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  (cd /repo && bash $d/demo.sh >/tmp/w/demo0.txt 2>&1); d0=$?
  git -C /repo apply $d/patch.diff || { echo "$id APPLY FAILED"; continue; }
  t=-
  if [ -z "$NOTEST" ]; then
    bash /opt/vp/test.sh /tmp/w/out.json >/dev/null 2>&1; t=$(python3 /tmp/w/stable.py)
  fi
  (cd /repo && bash $d/demo.sh >/tmp/w/demo1.txt 2>&1); d1=$?
  s=$(date +%s)
  VERIF_SEED=${SEED:-1} VERIF_TIER=quick /opt/venv/bin/python run.py $p >/tmp/w/try_$id.txt 2>&1; c=$?
  git -C /repo checkout -q -- .
  echo "$id $p demo0=$d0 demo1=$d1 tests=[$t] check=$c ($(( $(date +%s)-s ))s) $(grep -m1 VIOLATION /tmp/w/try_$id.txt)"
done
git -C /repo status --short
