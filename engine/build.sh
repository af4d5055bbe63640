#!/bin/bash
# Builds the symbolic executor into $1 (default /verif/.build/oaksym)
set -e
cd "$(dirname "$0")"
OUT=${1:-../.build/oaksym}
mkdir -p "$(dirname "$OUT")"
OBJ=$(mktemp -d)
pids=()
for f in expr solver ir main; do clang++ -O2 -std=c++17 -fexceptions -I/usr/lib/llvm-18/include -c $f.cpp -o $OBJ/$f.o & pids+=($!); done
for p in "${pids[@]}"; do wait $p; done
clang++ $OBJ/*.o -o "$OUT.tmp" -L/usr/lib/llvm-18/lib -lLLVM-18 -lz3
mv "$OUT.tmp" "$OUT"
for f in expr solver ir main; do rm -f $OBJ/$f.o; done; rmdir $OBJ
