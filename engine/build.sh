#!/bin/bash
# Builds the symbolic executor (engine/sx). Usage: build.sh [OUT]
set -e
cd "$(dirname "$0")"
OUT=${1:-./sx}
L=/usr/lib/llvm-18
clang++ -O2 -std=c++17 -fexceptions -Wno-everything -I$L/include -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS \
   sx.cpp -o "$OUT.tmp.$$" -L$L/lib -lLLVM-18 -lz3 -lpthread
mv "$OUT.tmp.$$" "$OUT"
