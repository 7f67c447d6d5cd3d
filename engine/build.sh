#!/bin/bash
# builds the symbolic executor into $1
set -e
cd "$(dirname "$0")"
Z=/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3
mkdir -p "$(dirname "$1")"
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
for f in expr solver exec; do
  g++ -O2 -g1 -std=c++17 -fno-rtti -w -I/usr/lib/llvm-18/include -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS -I$Z/include -c $f.cpp -o $T/$f.o &
  pids+=($!)
done
for p in "${pids[@]}"; do wait $p; done
g++ -o "$1.tmp" $T/*.o -L/usr/lib/llvm-18/lib -lLLVM-18 $Z/lib/libz3.so -Wl,-rpath,$Z/lib
mv "$1.tmp" "$1"
