#!/bin/bash
# usage: demo.sh, run in the repository after it was built.  Runs demo.py on the built helper programs in a scratch directory.
B="$(pwd)/_build/helper_functions"
D=$(cd "$(dirname "$0")" && pwd)
[ -d "$B" ] || { echo "no helper programs in $B"; exit 3; }
W=$(mktemp -d /tmp/demo.XXXXXX) || exit 3
trap 'rm -rf "$W"' EXIT
cd "$W" && timeout 120 python3 "$D/demo.py" "$B" >"$W/.out" 2>&1
RC=$?
tail -n 15 "$W/.out"
exit $RC
