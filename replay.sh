#!/bin/bash
# replay.sh FILE: build from /repo's working tree and re-execute a recorded run, printing its trace.
here=$(cd "$(dirname "$0")" && pwd)
if grep -q '"property": *"C14"' "$1"; then
    export CBORSIM_FOREIGN="$here/target/foreign"
    "$here/sim/foreign.sh" "$CBORSIM_FOREIGN" &
fi
out=$("$here/build.sh" 2>&1) || { echo "$out" | tail -40; exit 2; }
wait
exec "$here/target/release/cborsim" exec "$1"
