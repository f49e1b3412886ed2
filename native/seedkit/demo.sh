#!/bin/bash
# runs the cases beside this file on the real code; cwd is the repository, after its build
D=$(cd "$(dirname "$0")" && pwd); R=$PWD; T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
cp -r "$R/JSONQuery" "$T/q"
if [ -f "$D/small_chunks" ]; then sed -i -E 's/^#define MEMORY_FOOTPRINT .*/#define MEMORY_FOOTPRINT 97/; s/^#define MAX_EXTENSION .*/#define MAX_EXTENSION 40/' "$T"/q/*.[ch]; fi
sed -i -E 's/^#define MAX_OUTPUT .*/#define MAX_OUTPUT 2000/; s/^#define MAX_TUPLE_LIST .*/#define MAX_TUPLE_LIST 5000/' "$T"/q/*.h
L=$R/_build/lib
C=-DNO_CXX
if [ -f "$D/crow.cpp" ]; then
  g++ -std=c++11 -w -O1 -mcmodel=medium -I"$R/DFABuilder/include" -I"$R/DFABuilder/interface" -I"$R/JSONPathParser" -c "$D/crow.cpp" -o "$T/crow.o" || exit 3
  C="$T/crow.o"
fi
gcc -w -g -O1 ${SAN:-} -D_GNU_SOURCE -std=gnu99 -mcmodel=medium -I"$T/q" -I"$R/JSONPathParser" -I"$R/_build/JSONPathParser" -I"$R/DFABuilder/include" -I"$R/DFABuilder/interface" \
  -o "$T/drv" "$D/drv.c" $C "$T"/q/*.c "$L/libJSONPathParser.a" "$L/libDFABuilder.a" "$L/libJSONPathParser.a" -lstdc++ -lpthread -lm || exit 3
exec python3 "$D/run.py" "$T/drv" "$T" "$D/cases.json"
