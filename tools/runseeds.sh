#!/bin/bash
# usage: runseeds.sh [ids]
cd /verif
ids="$@"; [ -z "$ids" ] && ids=$(ls seeded)
for s in $ids; do
 p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$s/meta.json'))['property'])")
 git -C /repo apply /verif/seeded/$s/patch.diff || { echo "$s APPLYFAIL"; continue; }
 t0=$(date +%s)
 timeout 890 python3 check.py $p quick > /tmp/seedrun.$s.log 2>&1; rc=$?
 t1=$(date +%s)
 git -C /repo checkout -- .
 echo "$s $p rc=$rc $((t1-t0))s $(grep -m1 VIOLATION /tmp/seedrun.$s.log)"
done
