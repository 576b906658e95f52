#!/bin/bash
# builds the extractor into /verif/build (or $1)
set -e
HERE=$(cd "$(dirname "$0")" && pwd)
OUT=${1:-$HERE/../build}
mkdir -p "$OUT"
L=/usr/lib/x86_64-linux-gnu
/usr/bin/clang++-18 -std=c++17 -O1 -fno-rtti -w -I/usr/lib/llvm-18/include -D__STDC_LIMIT_MACROS -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D_GNU_SOURCE \
  "$HERE/extract.cpp" -o "$OUT/extract.tmp.$$" $L/libclang-cpp.so.18.1 $L/libLLVM-18.so
mv "$OUT/extract.tmp.$$" "$OUT/extract"
