#!/bin/bash
# bash run.sh <ID> quick|thorough   |   bash run.sh replay <file>
# Builds the harness against /repo's current working tree and runs one property's check.
ROOT=$(cd "$(dirname "$0")" && pwd)
. "$ROOT/tools/env.sh"
bash "$ROOT/tools/build.sh" || { echo "ERROR: build failed" >&2; exit 3; }
ulimit -v 40000000 2>/dev/null
BIN="$CARGO_TARGET_DIR/debug/vharness"
if [ "$1" = replay ]; then exec "$BIN" replay "$2"; fi
[ "$2" = thorough ] && T=5400 || T=860
timeout -k 5 $T "$BIN" check "$1" "${2:-quick}"
rc=$?
[ $rc = 0 ] || [ $rc = 1 ] || echo "ERROR: check ended with status $rc" >&2
exit $rc
