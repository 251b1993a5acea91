#!/bin/bash
# refrun.sh "KIND..." [CHECK...]: behaviour-preserving rewrite of a scratch copy; tests and checks have to pass
kinds=$1; shift; top=$(mktemp -d /tmp/rf-XXXXXX)
cp -a /repo $top/repo; python3 /verif/tools/refactor.py $top/repo $kinds || exit 2
mkdir -p $top/verif/evidence; cp -a /verif/run.py /verif/mc /verif/*.txt /verif/*.json* $top/verif/
(cd $top/repo; PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=$top/repo timeout 300 /opt/venv/bin/python -m pytest -q -p no:cacheprovider --continue-on-collection-errors 2>&1 | tail -3)
checks="$@"; [ -z "$checks" ] && checks=$(ls /verif/mc/checks | grep -o '^c[0-9]*' | tr c C)
for c in $checks; do s=$(date +%s); (cd $top/verif; VERIF_SEED=1 VERIF_TIER=quick VERIF_REPO=$top/repo timeout 900 python3 run.py $c > $top/out.$c 2>&1); rc=$?
if [ $rc -ne 0 ]; then echo "$kinds: $c rc=$rc $(( $(date +%s)-s ))s"; grep -m3 VIOL $top/out.$c; tail -3 $top/out.$c; cp $top/verif/replays/$c-1.json /tmp/ref/ 2>/dev/null; fi; done
echo "$kinds done"; rm -rf "$top"
