#!/bin/bash
# usage: tools/plant.sh SLOT ID...   confirms planted bugs in the scratch copy /tmp/lab/SLOT/repo (made with cp -a /repo):
# demo passes without the patch; with it: builds, stable tests pass, demo fails.
SLOT=$1; shift
R=/tmp/lab/$SLOT/repo
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
sed "s#cd /repo#cd $R#; s#timeout -k 10 840 ##" /opt/vp/test.sh > /tmp/lab/$SLOT/test.sh
for ID in "$@"; do
    S=/verif/seeded/$ID
    O=/tmp/lab/$SLOT/$ID; mkdir -p "$O"
    D=/tmp/lab/$SLOT/demo; rm -rf "/tmp/lab/$SLOT/demo"; cp -a "$S" "$D"; rm -f "/tmp/lab/$SLOT/demo/patch.diff" "/tmp/lab/$SLOT/demo/meta.json"
    cd "$R" || exit 1
    git checkout -q -- . && git clean -fdq src
    bash "$D/demo.sh" > "$O/clean.log" 2>&1; C=$?
    if ! git apply "$S/patch.diff"; then echo "$ID: patch does not apply"; continue; fi
    git diff --stat | tail -1
    bash "$D/demo.sh" > "$O/bug.log" 2>&1; B=$?
    bash /tmp/lab/$SLOT/test.sh "$O/out.json" > "$O/test.log" 2>&1
    T=$(python3 - "$O/out.json" <<'P'
import json,sys
o=json.load(open(sys.argv[1])); b=json.load(open("/opt/vp/BASELINE.json"))["stable"]
m=[t for t in b if t not in o["passed"]]
print("stable ok" if not m else "STABLE FAIL %s"%m)
P
)
    git checkout -q -- .
    echo "$ID: demo clean=$C bug=$B; $T"
done
