#!/bin/bash
# Runs the check of a planted bug's property (or the checks named) against /repo with the bug applied: seedrun.sh ID [PROP...]
ID=$1; shift; V=$(cd "$(dirname "$0")/.." && pwd)
P=${*:-$(python3 -c "import json;print(json.load(open('$V/seeded/$ID/meta.json'))['property'])")}
git -C /repo apply $V/seeded/$ID/patch.diff || exit 9
for p in $P; do (cd $V && timeout 900 python3 run.py $p quick | grep -aE 'VIOLATION|held|VIOLATED' | head -3; echo "$ID $p rc=${PIPESTATUS[0]}"); done
git -C /repo checkout -q -- .
