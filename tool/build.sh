#!/bin/bash
# builds the extractor into $1
set -e
cd "$(dirname "$0")"
OUT=${1:?}
TMP=$OUT.$$
g++ -O1 -w -std=c++17 -fno-rtti -fno-exceptions -I/usr/lib/llvm-18/include -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS gwmx.cpp -o "$TMP" -L/usr/lib/llvm-18/lib -l:libclang-cpp.so.18.1 -lLLVM-18
mv "$TMP" "$OUT"
