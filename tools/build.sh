#!/bin/bash
# builds the exporter into /verif/build (ignored by git)
set -eu
cd "$(dirname "$0")"
mkdir -p ../build
if [ ../build/astx -nt astx.cc ]; then exit 0; fi
tmp=../build/astx.$$
g++ -O1 -std=c++17 $(llvm-config-18 --cxxflags 2>/dev/null | tr ' ' '\n' | grep -v -e '^-std' -e '^-O' | tr '\n' ' ') \
   -fno-rtti astx.cc -o "$tmp" -L/usr/lib/llvm-18/lib -Wl,-rpath,/usr/lib/llvm-18/lib -l:libclang-cpp.so.18.1 -lLLVM-18
mv "$tmp" ../build/astx
