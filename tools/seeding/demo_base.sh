#!/bin/bash
# compiles the demonstration with the current sources; exit 0: the property holds
here=$(cd "$(dirname "$0")" && pwd); repo=$(pwd); w=$(mktemp -d); trap 'rm -rf "$w"' EXIT
L=$repo/incremental_calibration
F="-std=c++14 -O1 -w -I$here -I$L/include -I$repo -I/usr/include/eigen3"; for x in 2dlrf car time_delay egomotion_sensors; do F="$F -I$repo/incremental_calibration_examples/incremental_calibration_examples_$x/include"; done; i=0
for s in "$here"/demo.cpp "$L"/src/base/*.cpp "$L"/src/exceptions/*.cpp "$L"/src/statistics/*.cpp "$L"/src/functions/*.cpp; do
  i=$((i+1)); g++ $F -c "$s" -o "$w/$i.o" & pids="$pids $!"
done
for p in $pids; do wait $p || exit 3; done
g++ "$w"/*.o -lpthread -o "$w/demo" || exit 3
timeout 60 "$w/demo"
