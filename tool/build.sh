#!/bin/bash
set -e
cd "$(dirname "$0")"; mkdir -p ../build
if [ ! -x ../build/irdump ] || [ irdump.cc -nt ../build/irdump ]; then
clang++-18 -O1 -std=c++17 $(/usr/lib/llvm-18/bin/llvm-config --cxxflags | sed 's/-fno-exceptions//') irdump.cc -o ../build/irdump.tmp $(/usr/lib/llvm-18/bin/llvm-config --ldflags) -lLLVM-18
mv ../build/irdump.tmp ../build/irdump
fi
