#!/bin/bash
# build_harness.sh <property> <repo> <outdir>
set -eu
ROOT="$(cd "$(dirname "$0")/.." && pwd)"
ID="$1"; REPO="$2"; OUT="$3"
SRC=$(ls "$ROOT"/checks/"$(echo "$ID" | tr 'A-Z' 'a-z')"_*.cpp)
bash "$ROOT/bin/gen_stub.sh" "$ROOT/build/stub"
CXX="${CXX:-g++}"
FLAGS="-std=c++17 -O1 -g0 -w -DBOOST_ENABLE_ASSERT_HANDLER -DBLUEPRINT_PLONK_PROFILING_ENABLED_OFF"
INC="-I$ROOT/build/stub -I$ROOT/stub -I$REPO/include -I$ROOT/sim"
EXTRA=$(sed -n 's|^// build: ||p' "$SRC" | head -1)
LIBS=$(sed -n 's|^// link: ||p' "$SRC" | head -1)
$CXX $FLAGS -I"$ROOT/sim" -c "$ROOT/sim/sim.cpp" -o "$OUT/sim.o" &
P=$!
OBJS="$OUT/sim.o"
for M in $(sed -n 's|^// modules: ||p' "$SRC" | head -1); do
    $CXX $FLAGS -I"$ROOT/sim" -c "$ROOT/sim/$M.cpp" -o "$OUT/$M.o"
    OBJS="$OBJS $OUT/$M.o"
done
$CXX $FLAGS $INC $EXTRA -c "$SRC" -o "$OUT/harness.o"
wait $P
$CXX -rdynamic "$OUT/harness.o" $OBJS -o "$OUT/harness" $LIBS -lpthread -ldl
