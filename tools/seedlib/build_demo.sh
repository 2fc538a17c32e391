#!/bin/bash
# builds demo.cpp with /repo's sources in a scratch directory and runs it there
D=$(cd "$(dirname "$0")" && pwd)
S=/repo/geodiff/src
T=$(mktemp -d /tmp/demo.XXXXXX) || exit 9
trap 'rm -rf "$T"' EXIT
export TMPDIR=$T/
F="-std=c++14 -O0 -g -w $DEMO_FLAGS -DSQLITE_CORE -DSQLITE_ENABLE_SESSION -DSQLITE_ENABLE_PREUPDATE_HOOK -DGEODIFF_STATIC -I$S -I$S/drivers -I$S/3rdparty -I$D -I/usr/include/postgresql"
mkdir "$T/o" "$T/w"
ls $S/*.cpp $S/3rdparty/*.cpp $S/drivers/*.cpp "$D/demo.cpp" | grep -v geodiffinfo.cpp > "$T/list"
xargs -P 8 -I{} sh -c 'g++ '"$F"' -c "{}" -o '"$T"'/o/$(basename "{}" .cpp).o' < "$T/list" || exit 8
g++ $DEMO_FLAGS "$T"/o/*.o -o "$T/demo" -lsqlite3 $DEMO_LIBS -lpthread -ldl || exit 7
cd "$T/w" && timeout 120 "$T/demo"
rc=$?
echo "demo exit $rc"
exit $rc
