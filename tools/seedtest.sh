#!/bin/bash
# seedtest.sh ID [check...]: confirms a planted change (builds, stable tests pass, demo separates) and runs checks against it. Leaves /repo as it was.
id=$1; shift; D=/verif/seeded/$id
prop=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
[ -z "$(git -C /repo status --porcelain)" ] || { echo "repo dirty"; exit 2; }
trap 'git -C /repo checkout -q -- .' EXIT
cd /repo; if [ -z "$FAST" ]; then timeout 300 bash $D/demo.sh > /tmp/demo.out 2>&1; a=$?; else a=skip; fi
git -C /repo apply $D/patch.diff || { echo "$id: patch does not apply"; exit 2; }
timeout 300 bash $D/demo.sh > /tmp/demo.out 2>&1; b=$?
if [ -z "$FAST" ]; then t=$(bash /tmp/p/t.sh 2>&1 | tail -1); else t=skip; fi
echo "$id ($prop): demo clean=$a patched=$b tests: $t"
for c in ${@:-$prop}; do (cd /verif; timeout 900 python3 run.py $c 2>&1 | grep -E "VIOLATION|held|no answer" | cut -c1-260 | head -${LINES_:-3}); done
