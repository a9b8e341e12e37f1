#!/bin/bash
# usage: tools/hunt.sh [ID...]   applies each planted bug to /repo, runs the quick check of its property (and with
# ALL=1 every other check), undoes it, and prints which checks caught it.
cd /verif || exit 1
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 1; }
[ $# -gt 0 ] || set -- $(ls seeded)
trap 'git -C /repo checkout -q -- .' EXIT
for ID in "$@"; do
    P=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["property"])' seeded/$ID/meta.json)
    git -C /repo apply /verif/seeded/$ID/patch.diff || { echo "$ID: does not apply"; continue; }
    LIST=$P
    [ -n "$ALL" ] && LIST="$P $(harness/target/debug/zsim list | grep -v "^$P\$")"
    for C in $LIST; do
        S=$(date +%s%N)
        VERIF_SEED=${VERIF_SEED:-1} ./check.sh $C quick > /tmp/hunt.out 2>&1; R=$?
        E=$(( ($(date +%s%N) - S) / 1000000 ))
        echo "$ID [$P] check $C: exit $R (${E} ms) $(grep -m1 VIOLATION /tmp/hunt.out | head -c 100) $(grep -m1 -A1 VIOLATION /tmp/hunt.out | tail -1 | head -c 160)"
    done
    git -C /repo checkout -q -- .
done
