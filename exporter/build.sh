#!/bin/bash
# Builds the exporter (libTooling, clang 18) into /verif/build.
set -e
here=$(cd "$(dirname "$0")" && pwd)
out=${1:-$here/../build}
mkdir -p "$out"
if [ -x "$out/nexport" ] && [ "$out/nexport" -nt "$here/nexport.cpp" ]; then exit 0; fi
clang++-18 -O1 -I/usr/lib/llvm-18/include -std=c++17 -fno-exceptions -fno-rtti -D_GNU_SOURCE \
  -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS \
  "$here/nexport.cpp" -o "$out/nexport.tmp$$" -L/usr/lib/llvm-18/lib -l:libclang-cpp.so.18.1 -lLLVM-18
mv "$out/nexport.tmp$$" "$out/nexport"
