#!/bin/bash
# usage: demo.sh, run in the repository after it was built.  Builds demo.cpp against the current tree in a scratch directory and runs it there.
R=$(pwd)
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d /tmp/demo.XXXXXX) || exit 3
trap 'rm -rf "$W"' EXIT
V="$R/src/Auxillary/json_schema"
[ -f "$V/schema_validation.cpp" ] || { echo "no sources in $R"; exit 3; }
INC=$(find "$R/src" "$R/pcg-cpp" "$R/Randutils" -type d -name include 2>/dev/null | sed 's/^/-I/')
# the JSON schema validator is not installed: a small stand-in lies beside this script
FLAGS="-std=c++17 -O1 -w -DHAVE_CSTDDEF -DGRAZER_VERSION=0.2.4 -I$D/stub $INC -I$R/src -I/usr/include/eigen3 -I/usr/include/coin -I/usr/include/coin-or"
g++ $FLAGS -c "$V/schema_validation.cpp" -o "$W/v.o" & P1=$!
g++ $FLAGS -c "$D/demo.cpp" -o "$W/d.o" & P2=$!
wait $P1 || exit 3
wait $P2 || exit 3
LIBS=$(find "$R/_build/src" -name '*.a')
g++ "$W/d.o" "$W/v.o" -Wl,--start-group $LIBS -Wl,--end-group -no-pie -Wl,--unresolved-symbols=ignore-all -o "$W/demo" 2>"$W/link" || { cat "$W/link"; exit 3; }
mkdir "$W/run" && cd "$W/run" && timeout 120 "$W/demo" >"$W/out" 2>&1
RC=$?
tail -n 15 "$W/out"
exit $RC
