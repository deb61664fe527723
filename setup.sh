#!/bin/bash
# Builds the fact exporter (clang libTooling) from the committed source.
set -e
cd "$(dirname "$0")"
mkdir -p build evidence
SRC=facts/alayafacts.cpp
if [ ! -x build/alayafacts ] || [ ! build/alayafacts -nt $SRC ]; then
CLANGCPP=$(ls /usr/lib/llvm-18/lib/libclang-cpp.so* /usr/lib/x86_64-linux-gnu/libclang-cpp.so.18* 2>/dev/null | head -1)
g++ -std=c++17 -O1 -fno-rtti -I/usr/lib/llvm-18/include -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS \
  -D__STDC_LIMIT_MACROS $SRC -o build/alayafacts.tmp "$CLANGCPP" /usr/lib/llvm-18/lib/libLLVM-18.so
mv build/alayafacts.tmp build/alayafacts
fi
# parse the driver units once; checks reuse an entry only while every file it was parsed from is unchanged
NO_SETUP=1 python3 -c "import sys; sys.path.insert(0, '.'); from vf.prog import extract, ALL, OMP; extract(ALL + OMP)" || true
