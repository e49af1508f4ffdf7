#!/bin/bash
# Builds demo.cpp against the library objects of the current build and runs it per back end.
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d) || exit 3; trap 'rm -rf "$T"' EXIT
R=$PWD; rc=0
for c in $(cat "$D/backends"); do
  o=$(ls "$R"/_build/$c-real/obj/*.o | grep -v '/test')
  g++ -std=c++14 -O1 -pthread -DE_FLOAT_TYPE_${c^^} -I"$R/libs/e_float/src" -I"$R/libs/math/include" "$D/demo.cpp" $o -lmpfr -lgmp -o "$T/d_$c" || exit 3
  (cd "$T" && timeout 100 ./d_$c) || { echo "demo fails with back end $c"; rc=1; }
done
exit $rc
