#!/bin/bash
# builds the fact extractor; $1 = output binary
set -e
cd "$(dirname "$0")"
L=/usr/lib/llvm-18/lib
g++ -std=c++17 -O1 -fno-rtti -w -I/usr/lib/llvm-18/include -D__STDC_CONSTANT_MACROS -D__STDC_LIMIT_MACROS extract.cpp -o "$1.tmp.$$" -L$L -l:libclang-cpp.so.18.1 -l:libLLVM-18.so -Wl,-rpath,$L
mv "$1.tmp.$$" "$1"
