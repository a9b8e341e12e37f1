#!/bin/bash
# usage: ./check.sh C01 [quick|thorough]   runs the check of one property against /repo's working tree
#        ./check.sh replay FILE            replays a violation
#        ./check.sh build                  only builds the simulator
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD" CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export RUSTUP_TOOLCHAIN="${RUSTUP_TOOLCHAIN:-stable}"
BIN="$PWD/harness/target/debug/zsim"
LOG="$(mktemp)"
(
    cd harness || exit 2
    # Never trust time stamps of an earlier build of the code under test.
    cargo clean --offline --quiet -p zippity 2> /dev/null
    cargo build --offline --locked
) > "$LOG" 2>&1
RC=$?
if [ $RC -ne 0 ]; then
    tail -60 "$LOG" >&2
    rm -f "$LOG"
    echo "the simulator does not build against /repo" >&2
    exit 2
fi
rm -f "$LOG"
case "$1" in
    build) exit 0 ;;
    replay) exec "$BIN" replay "$2" ;;
    *) exec "$BIN" check "$@" ;;
esac
