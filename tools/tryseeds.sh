#!/bin/bash
# tools/tryseeds.sh [ID...]   applies each seeded change to /repo in turn, runs its property's check, undoes it
cd "$(dirname "$0")/.." || exit 2
[ -n "$(git -C /repo status --short)" ] && { echo "/repo is not clean"; exit 2; }
[ $# = 0 ] && set -- $(ls seeded)
for s in "$@"; do
    p=$(python3 -c "import json;print(json.load(open('seeded/$s/meta.json'))['property'])")
    git -C /repo apply "$PWD/seeded/$s/patch.diff" || { echo "$s: does not apply"; continue; }
    t=$(date +%s); out=$(timeout 900 ./check.sh "$p" 2>&1); rc=$?
    git -C /repo checkout -q -- .
    echo "$s $p rc=$rc $(( $(date +%s) - t ))s $(grep -m1 -o 'VIOLATION.*' <<<"$out" | cut -c1-230)"
done
