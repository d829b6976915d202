#!/bin/bash
# builds the bsx engine into $1
set -e
D="$(cd "$(dirname "$0")" && pwd)"; OUT="$1"; mkdir -p "$OUT"
F="-O2 -std=c++17 -w $(llvm-config-18 --cppflags) -fexceptions -fno-rtti"
rm -f "$OUT/expr.o" "$OUT/order.o" "$OUT/blast.o" "$OUT/bsx.o"
g++ $F -c "$D/expr.cpp" -o "$OUT/expr.o" &
g++ $F -c "$D/order.cpp" -o "$OUT/order.o" &
g++ $F -c "$D/blast.cpp" -o "$OUT/blast.o" &
g++ $F -c "$D/bsx.cpp" -o "$OUT/bsx.o" &
wait
g++ "$OUT/expr.o" "$OUT/bsx.o" "$OUT/blast.o" "$OUT/order.o" -o "$OUT/bsx.tmp" -L/usr/lib/llvm-18/lib -lLLVM-18 -lz3 /usr/lib/x86_64-linux-gnu/libpicosat.so
mv "$OUT/bsx.tmp" "$OUT/bsx"
