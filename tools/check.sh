#!/bin/bash
# Builds the monitors against /repo's working tree and runs one check.
# usage: tools/check.sh ID [quick|thorough] [--replay SEED:CASE]
# exit: 0 held, 1 VIOLATION, anything else: no answer
cd "$(dirname "$0")/.." || exit 2
export CARGO_TARGET_DIR=${HBMON_TARGET:-$PWD/target} CARGO_NET_OFFLINE=true
export HBMON_EVIDENCE=$PWD/evidence
mkdir -p "$CARGO_TARGET_DIR" evidence
case $1 in
    C19) exec python3 tools/capi.py "$@" ;;
    C20) exec python3 tools/bindings.py "$@" ;;
    C27) exec python3 tools/configs.py "$@" ;;
esac
. tools/build.sh || exit 2
# a crash of the process (stack overflow, abort, memory without end) is an answer too
ulimit -v 20000000
err=$CARGO_TARGET_DIR/hbmon.err
"$CARGO_TARGET_DIR/debug/hbmon" "$@" 2> >(tee "$err" >&2)
rc=$?
if [ $rc = 134 ] || [ $rc = 139 ]; then
    mkdir -p evidence/replays
    replay=$PWD/evidence/replays/$1-crash.txt
    { echo "VERIF_SEED=${VERIF_SEED:-1} tools/check.sh $* died with exit code $rc:"; tail -c 4000 "$err"; } >"$replay"
    echo "VIOLATION property=$1 replay=$replay"
    echo "  the process died with exit code $rc (134: abort, stack overflow or memory exhausted; 139: segmentation fault): $(tail -c 300 "$err" | tr '\n' ' ')"
    exit 1
fi
exit $rc
