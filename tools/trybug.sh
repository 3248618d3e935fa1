#!/bin/bash
# tools/trybug.sh SEED [PROPERTY...]: apply a planted change to /repo, run checks, undo it
V=$(cd "$(dirname "$0")/.." && pwd); id=$1; shift
props=${*:-$(python3 -c "import json;print(json.load(open('$V/seeded/$id/meta.json'))['property'])")}
git -C /repo apply $V/seeded/$id/patch.diff || exit 9
for p in $props; do (cd $V && python3 run.py $p 2>&1 | tail -4); done
git -C /repo checkout -- .
