#!/bin/bash
# Takes back each repair in /repo's working tree, runs the quick check of its property, restores the tree.
cd /verif || exit 1
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 1; }
trap 'git -C /repo checkout -q -- .' EXIT
grep "^fixed:" known-findings.txt | grep "${1:-.}" | while read -r _ P C _; do
    P=${P#property=}
    if ! git -C /repo show "$C" -- src | git -C /repo apply -R --3way - 2> /tmp/unfix.err; then echo "$C $P: does not apply in reverse"; git -C /repo reset -q --hard; continue; fi
    git -C /repo reset -q
    ./check.sh "$P" quick > /tmp/unfix.out 2>&1; R=$?
    echo "$C $P: exit $R $(grep -B1 -m1 VIOLATION /tmp/unfix.out | head -1 | head -c 150)"
    git -C /repo checkout -q -- .
done
