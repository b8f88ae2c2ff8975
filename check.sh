#!/bin/bash
# check.sh ID [quick|thorough]   search for violations of one property
# check.sh replay FILE           repeat a recorded violation
# Environment: VERIF_SEED (default 1), ORCH_CASES, ORCH_BUDGET, ORCH_WALL, ORCH_WORKERS, ORCH_TRACE.
V="$(cd "$(dirname "$0")" && pwd)"
bash "$V/build.sh" || { echo "build failed"; exit 3; }
export ORCH_BIN="$V/target/dune/debug/dunesh" ORCH_SHIM="$V/target/shim/libdunesim.so"
cd "$V"
if [ "$1" = replay ]; then exec "$V/target/orch/release/orch" replay "$2"; fi
[ -n "$2" ] && export VERIF_TIER="$2"
exec "$V/target/orch/release/orch" check "$1"
