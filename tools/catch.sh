#!/bin/bash
# Runs each planted bug's check against it in a scratch copy of /repo (needs /tmp/plant/repo): tools/catch.sh [ids...]
cd "$(dirname "$0")/.." || exit 1
w=/tmp/plant/repo
ids=${*:-$(ls seeded)}
for id in $ids; do
    p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
    git -C $w checkout -q .
    git -C $w apply "$PWD/seeded/$id/patch.diff" || { echo "$id does not apply"; continue; }
    out=$(RPP_REPO=$w timeout 900 python3 check.py $p --no-evidence 2>&1); r=$?
    c=$(echo "$out" | grep -m1 "violated in run" | sed 's/.*: //')
    t=$(echo "$out" | grep -m1 " quick: " | sed 's/.*quick: \([0-9]* runs in [0-9.]* s\).*/\1/')
    if [ $r = 1 ] && [ -n "$c" ]; then echo "$id $p CAUGHT $c ($t)"; else echo "$id $p MISSED rc=$r ($t)"; fi
    git -C $w checkout -q .
done
