#!/bin/bash
# usage: tools/quiet.sh [NAME...]   applies each behaviour-preserving edit of tools/refactors to /repo, builds, runs every
# quick check with a short time budget, undoes it; every check has to stay quiet.
cd /verif || exit 1
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 1; }
[ $# -gt 0 ] || set -- $(cd tools/refactors && ls | sed 's/\.diff$//')
trap 'git -C /repo checkout -q -- .' EXIT
export VERIF_DIR=/verif VERIF_SEED=${VERIF_SEED:-1} ZSIM_MS=${ZSIM_MS:-6000}
for N in "$@"; do
    git -C /repo apply /verif/tools/refactors/$N.diff || { echo "$N: does not apply"; continue; }
    ./check.sh build || echo "$N: does not build"
    for C in $(harness/target/debug/zsim list); do
        harness/target/debug/zsim check $C quick > /tmp/quiet.out 2>&1
        R=$?; [ $R = 0 ] || echo "$N: check $C: exit $R $(tail -3 /tmp/quiet.out | head -c 300)"
    done
    git -C /repo checkout -q -- .
    echo "$N: done"
done
