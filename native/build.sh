#!/bin/bash
# build.sh OUTDIR [NAME=VALUE ...]: compiles /repo's current sources (with the given #define constants replaced)
# into OUTDIR/libjp.a and the driver OUTDIR/jsrv
set -e
R=${REPO:-/repo}; O=$1; shift
H=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$O/src"
cp -a "$R/DFABuilder" "$R/JSONPathParser" "$R/JSONQuery" "$O/src/"
for d in "$@"; do
  n=${d%%=*}; v=${d#*=}
  # a capacity constant is only ever made smaller (a smaller one in the source is kept)
  for f in $(grep -lE "^#define[ \t]+$n[ \t]+[0-9]+" "$O"/src/JSONQuery/*.[ch]); do
    c=$(sed -n -E "s/^#define[ \t]+$n[ \t]+([0-9]+).*/\1/p" "$f" | head -1)
    if [ "$c" -gt "$v" ]; then sed -i -E "s/^(#define[ \t]+$n)[ \t]+.*/\1 $v/" "$f"; fi
  done
done
S=$O/src; cd "$O"
flex --header-file=$S/JSONPathParser/scanner_j.h -o $S/JSONPathParser/scanner_j.c $S/JSONPathParser/scanner_j.l
bison -d -t --output=$S/JSONPathParser/parser_j.c $S/JSONPathParser/parser_j.y 2>/dev/null
INC="-I$S/DFABuilder/include -I$S/DFABuilder/interface -I$S/JSONPathParser -I$S/JSONQuery"
CF="-D_GNU_SOURCE -std=c99 -mcmodel=medium -w -g ${OPT:--O1}"
{ for f in $S/JSONQuery/*.c $S/JSONPathParser/scanner_j.c $S/JSONPathParser/parser_j.c; do echo "gcc $CF $INC -c $f -o $O/$(basename $f .c).o"; done
  for f in $S/DFABuilder/src/*.cpp $S/DFABuilder/src/Lexer/*.cpp; do echo "g++ -std=c++11 -mcmodel=medium -w -g ${OPT:--O1} $INC -c $f -o $O/cpp_$(basename $f .cpp).o"; done
} | xargs -P 8 -I{} sh -c "{}"
rm -f "$O/libjp.a"; ar rcs "$O/libjp.a" "$O"/*.o
NOCXX=-DNO_CXX; g++ -std=c++11 -mcmodel=medium -w -g ${OPT:--O1} $INC -c $H/crow.cpp -o $O/crow.o 2>/dev/null && ar rcs "$O/libjp.a" "$O/crow.o" && NOCXX= || echo "modes left out: CXX" >&2
CF="$CF $NOCXX"
L="-o $O/jsrv $O/libjp.a -lstdc++ -lpthread -lm"
if ! gcc $CF $INC $H/jsrv.c $L 2>/dev/null; then
  no=""   # leave out the modes whose interface is gone
  for g in LEX STACKS PART DFA CONS TUPLES; do
    rest=""; for h in LEX STACKS PART DFA CONS TUPLES; do [ $h = $g ] || rest="$rest -DNO_$h"; done
    gcc $CF $INC $rest $H/jsrv.c $L 2>/dev/null || no="$no -DNO_$g"
  done
  echo "modes left out:$no" >&2
  gcc $CF $INC $no $H/jsrv.c $L
fi
mkdir -p "$O/run"; rm -rf "$O/src" "$O"/*.o
