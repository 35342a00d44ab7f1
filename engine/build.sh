#!/bin/bash
# builds the executor into $1 (default /verif/.build); needs only the installed LLVM 18
set -e
cd "$(dirname "$0")"
OUT=${1:-../.build}; mkdir -p "$OUT"
F="-std=c++17 -O2 -w -fno-rtti -fno-exceptions $(llvm-config-18 --cppflags)"
for f in expr solver exec; do clang++ $F -c $f.cpp -o "$OUT/$f.o" & P="$P $!"; done
for p in $P; do wait $p; done
clang++ "$OUT"/expr.o "$OUT"/solver.o "$OUT"/exec.o -o "$OUT/rsym.tmp" $(llvm-config-18 --ldflags --libs core irreader analysis demangle support) -lpthread
mv "$OUT/rsym.tmp" "$OUT/rsym"
