#!/bin/bash
# builds the demonstration against the sources in the current directory and runs it in a scratch directory
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
srcs="src/bmi_lgar.cxx src/lgar.cxx src/soil_funcs.cxx src/linked_list.cxx src/mem_funcs.cxx src/util_funcs.cxx src/aet.cxx"
pids=()
for s in $srcs; do g++ -std=c++14 -O1 -w $DEMO_FLAGS -I"$repo" -c "$s" -o "$tmp/$(basename $s).o" & pids+=($!); done
gcc -O1 -w $DEMO_FLAGS -c giuh/giuh.c -o "$tmp/giuh.o" & pids+=($!)
g++ -std=c++14 -O1 -w $DEMO_FLAGS -I"$repo" -I"$here" -c "$here/demo.cpp" -o "$tmp/demo.o" & pids+=($!)
for p in "${pids[@]}"; do wait $p || exit 3; done
g++ $DEMO_FLAGS -o "$tmp/demo" "$tmp"/*.o -lm || exit 3
export DEMO_TMP=$tmp DEMO_REPO=$repo
cd "$tmp" && timeout 120 ./demo > out.txt 2> err.txt
rc=$?
grep -a FAIL out.txt | head -5
exit $rc
