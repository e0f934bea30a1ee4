#!/bin/bash
# Builds the IR extractor used by every check (offline, into /verif/build).
set -e
cd "$(dirname "$0")"
mkdir -p build
/usr/bin/clang++-18 -O1 -std=c++17 -fno-rtti -fno-exceptions tool/irx.cpp -o build/irx \
   -I/usr/lib/llvm-18/include -L/usr/lib/llvm-18/lib -lLLVM-18 -Wl,-rpath,/usr/lib/llvm-18/lib
