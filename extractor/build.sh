#!/bin/bash
# builds the extractor into $1
set -e
here=$(cd "$(dirname "$0")" && pwd)
out=${1:?}
mkdir -p "$(dirname "$out")"
tmp=$out.tmp.$$
/usr/bin/clang++-18 -std=c++17 -O1 -fno-rtti -w -I/usr/lib/llvm-18/include -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS "$here/extract.cpp" -o "$tmp" /usr/lib/llvm-18/lib/libclang-cpp.so.18.1 /usr/lib/llvm-18/lib/libLLVM.so -Wl,-rpath,/usr/lib/llvm-18/lib
mv "$tmp" "$out"
