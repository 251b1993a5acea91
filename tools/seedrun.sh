#!/bin/bash
# run.sh SEEDID [CHECK...]: run checks (default own property) on a copy with the seed applied
id=$1; shift
top=$(mktemp -d /tmp/sr-XXXXXX)
cp -a /repo $top/repo; git -C $top/repo checkout -q -- .; git -C $top/repo apply /verif/seeded/$id/patch.diff || { echo "$id APPLY FAILED"; exit; }
mkdir $top/verif; cp -a /verif/run.py /verif/mc /verif/*.txt /verif/*.json* $top/verif/ 2>/dev/null; mkdir -p $top/verif/evidence
checks="$@"; [ -z "$checks" ] && checks=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
for c in $checks; do
  s=$(date +%s)
  (cd $top/verif; VERIF_SEED=1 VERIF_TIER=${TIER:-quick} VERIF_REPO=$top/repo timeout 900 python3 run.py $c > $top/out 2>&1); rc=$?
  echo "$id $c rc=$rc $(( $(date +%s)-s ))s $(grep -c '^VIOLATION' $top/out) viol $(grep -m1 '^VIOLATION' $top/out | cut -c1-60)"
  [ $rc -gt 1 ] && tail -5 $top/out
done
rm -rf "$top"
