#!/bin/bash
# Builds the symbolic executor into /verif/build (offline: system LLVM 18 and libz3).
set -e
cd "$(dirname "$0")"
out=${1:-../build}
mkdir -p $out
g++ -std=c++17 -O2 -g1 -fno-rtti -Wno-unused-function -I/usr/lib/llvm-18/include -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS -c expr.cpp -o $out/expr.o &
g++ -std=c++17 -O2 -g1 -fno-rtti -Wno-unused-function -I/usr/lib/llvm-18/include -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS -c exec.cpp -o $out/exec.o &
wait %1; wait %2
g++ $out/expr.o $out/exec.o -o $out/abcsym -L/usr/lib/llvm-18/lib -lLLVM-18 -lz3
