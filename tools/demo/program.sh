#!/bin/bash
# usage: demo.sh, run in the repository after it was built.  Builds demo.cpp with the program (grazer.cpp is included by it; the Ipopt library
# is replaced by the stand-in beside this script) against the current tree in a scratch directory and runs it there.
R=$(pwd)
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d /tmp/demo.XXXXXX) || exit 3
trap 'rm -rf "$W"' EXIT
[ -f "$R/src/Grazer/grazer.cpp" ] || { echo "no sources in $R"; exit 3; }
INC=$(find "$R/src" "$R/pcg-cpp" "$R/Randutils" -type d -name include 2>/dev/null | sed 's/^/-I/')
FLAGS="-std=c++17 -O1 -w -DHAVE_CSTDDEF -include iostream -DGRAZER_VERSION=0.2.4 -I$D/stub $INC -I$R/src -I$R/CLI11/include -I/usr/include/eigen3 -I/usr/include/coin -I/usr/include/coin-or"
PIDS=
for f in "$D/demo.cpp" "$R"/src/Auxillary/json_schema/schema_validation.cpp "$R"/src/Grazer/commands.cpp "$R"/src/Grazer/helpers.cpp "$R"/src/IpoptWrapper/Adaptor.cpp; do
  g++ $FLAGS -c "$f" -o "$W/$(basename "$f").o" & PIDS="$PIDS $!"
done
for p in $PIDS; do wait $p || exit 3; done
LIBS=$(find "$R/_build/src" -name '*.a')
g++ "$W"/*.o -Wl,--start-group $LIBS -Wl,--end-group -no-pie -Wl,--unresolved-symbols=ignore-all -o "$W/demo" 2>"$W/link" || { cat "$W/link"; exit 3; }
mkdir "$W/run" && cd "$W/run" && timeout 120 "$W/demo" >"$W/out" 2>&1
RC=$?
tail -n 15 "$W/out"
exit $RC
