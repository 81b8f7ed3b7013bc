#!/bin/bash
# check.sh PROPERTY: build from /repo's working tree, then explore.
# Exit 0: held; 1: VIOLATION line; 2: the check itself failed.
here=$(cd "$(dirname "$0")" && pwd)
export CBORSIM_ROOT="$here"
if [ "$1" = C14 ]; then
    export CBORSIM_FOREIGN="$here/target/foreign"
    "$here/sim/foreign.sh" "$CBORSIM_FOREIGN" &
fi
out=$("$here/build.sh" 2>&1) || { echo "$out" | tail -40; echo "check error: build failed"; exit 2; }
wait
exec "$here/target/release/cborsim" check "$1"
