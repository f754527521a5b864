#!/bin/bash
# Builds the IR exporter (irx) and the syntax-tree fact extractor (astx) into /verif/build (offline; LLVM 18 from the image).
set -e
here=$(cd "$(dirname "$0")" && pwd)
out=${1:-$here/../build}
mkdir -p "$out"
if ! { [ -x "$out/irx" ] && [ "$out/irx" -nt "$here/irx.cpp" ]; }; then
  clang++-18 -O1 -std=c++17 -I/usr/lib/llvm-18/include -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS \
    -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS "$here/irx.cpp" -o "$out/irx.tmp.$$" -L/usr/lib/llvm-18/lib -lLLVM-18
  mv "$out/irx.tmp.$$" "$out/irx"
fi
if ! { [ -x "$out/astx" ] && [ "$out/astx" -nt "$here/astx.cpp" ]; }; then
  clang++-18 -O1 -std=c++17 -fno-rtti $(llvm-config-18 --cxxflags | sed 's/-std=[^ ]*//') "$here/astx.cpp" -o "$out/astx.tmp.$$" \
    -L/usr/lib/llvm-18/lib -l:libclang-cpp.so.18.1 -lLLVM-18 -Wl,-rpath,/usr/lib/llvm-18/lib
  mv "$out/astx.tmp.$$" "$out/astx"
fi
