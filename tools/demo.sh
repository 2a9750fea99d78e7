#!/bin/bash
# builds demo.cc against the tree in the current directory (after build.sh) and runs it in a scratch directory
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
cd "$PWD/_build" || exit 2
find "$PWD/bazel-out" -name '*.o' -path '*/_objs/*' ! -path '*test*' ! -path '*benchmark*' ! -path '*generator*' ! -path '*example*' > "$T/objs"
ar rcsT "$T/lib.a" $(cat "$T/objs") || exit 2
TAIL=$(sed -n 's/.*g++ -pthread -o $out @$out.rsp $extra //p' build.ninja | head -1 | sed 's/\$[a-z_]*//g')
FLAGS=$(cat "$D/flags" 2>/dev/null)
g++ -pthread -std=c++17 -O1 -DNDEBUG -w -fPIC -msse3 -fexceptions -fno-rtti $FLAGS -I. -Ibazel-out/k8-opt/bin \
  -isystem /opt/vp/tachyon_build/include "$D/demo.cc" -o "$T/demo" "$T/lib.a" "$T/lib.a" $TAIL -ldl -lgmpxx -lgmp || exit 2
cd "$T" && timeout 200 ./demo
