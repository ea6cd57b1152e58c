#!/bin/bash
# run_seeded.sh ID... : runs the quick check of each planted bug's property against a scratch copy with the patch
cd /verif
for id in "$@"; do
  d=/tmp/seedrun/$id; rm -rf /tmp/seedrun/"$id"; mkdir -p /tmp/seedrun
  cp -a /repo $d && git -C $d apply /verif/seeded/$id/patch.diff || { echo "$id APPLY-FAILED"; continue; }
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  s=$(date +%s)
  MC_REPO=$d VERIF_SEED=1 /opt/venv/bin/python mc/run.py $p quick > /tmp/seedrun/$id.log 2>&1
  rc=$?
  echo "$id $p rc=$rc $(grep -c ^VIOLATION /tmp/seedrun/$id.log) $(( $(date +%s)-s ))s $(grep -m1 '^  \[' /tmp/seedrun/$id.log | cut -c1-170)"
  rm -rf /tmp/seedrun/"$id"
done
