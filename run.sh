#!/bin/bash
# usage: run.sh check ID — rebuild from /repo's working tree, then search.
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD"
export SIM_TARGET="${SIM_TARGET:-$PWD/target}"
log=$(mktemp)
if ! sim/build.sh >"$log" 2>&1; then
    tail -60 "$log"; rm -f "$log"
    echo "ERROR the simulator does not build against /repo"
    exit 2
fi
rm -f "$log"
exec "$SIM_TARGET/debug/starry-sim" "$@"
