#!/bin/bash
# catch.sh [BUG...]: apply each planted bug to /repo, run the quick check of its property (or $PROPS), undo.
cd "$(dirname "$0")/.."
[ $# -eq 0 ] && set -- seeded/*/
for b; do
    b=${b%/}; id=$(basename "$b")
    p=${PROPS:-$(python3 -c "import json,sys;print(json.load(open('seeded/$id/meta.json'))['property'])")}
    git -C /repo diff --quiet || { echo "/repo is not clean"; exit 1; }
    git -C /repo apply "$PWD/seeded/$id/patch.diff" || { echo "$id: does not apply"; continue; }
    for q in $p; do
        out=$(./check.sh $q quick 2>&1); rc=$?
        echo "$id $q: exit $rc $(echo "$out" | grep -E -B2 '^VIOLATION' | head -1 | cut -c1-160)"
        [ $rc -ge 2 ] && echo "$out" | tail -5
    done
    git -C /repo checkout -q -- .
done
