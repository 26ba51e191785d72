#!/bin/bash
# compiles the demonstration with the current sources; exit 0: the property holds
here=$(cd "$(dirname "$0")" && pwd); repo=$(pwd); w=$(mktemp -d); trap 'rm -rf "$w"' EXIT
L=$repo/incremental_calibration; T=$repo/aslam_tsvd_solver
F="-std=c++14 -O0 -w -I$here -I$here/stubs -I$L/include -I$T/include -I$repo -I/usr/include/eigen3 -I/usr/include/suitesparse"
F="$F -I$repo/incremental_calibration_examples"
for x in 2dlrf car time_delay egomotion_sensors camera; do F="$F -I$repo/incremental_calibration_examples/incremental_calibration_examples_$x/include"; done; i=0
for s in "$here"/demo.cpp $(ls "$here"/program.cpp 2>/dev/null) "$here"/stubs/tsvd-dense.cpp "$L"/src/core/*.cpp "$L"/src/base/*.cpp "$L"/src/exceptions/*.cpp "$T"/src/*.c* $(cd "$repo" && sed "s#^#$repo/#" "$here/sources.txt" | while read -r g; do ls $g; done); do
  i=$((i+1)); while [ $(jobs -rp | wc -l) -ge 8 ]; do sleep 0.05; done; g++ $F -c "$s" -o "$w/$i.o" & pids="$pids $!"
done
for p in $pids; do wait $p || exit 3; done
g++ "$w"/*.o -lboost_filesystem -lboost_system -lcholmod -lsuitesparseconfig -lglog -lpthread -o "$w/demo" || exit 3
timeout 60 "$w/demo"
