#!/bin/bash
# builds demo.cc against the built library and runs it; exit 0 iff the property holds on its input
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
g++ -std=c++17 -O1 -w -I/repo -I/repo/_build -I/usr/include/eigen3 -I/usr/include/lua5.2 "$d/demo.cc" -o "$t/demo" \
  /repo/_build/libcartographer.a -lz -lceres -lglog -lgflags -llua5.2 -lboost_iostreams -lcairo -lprotobuf \
  $(ls /usr/lib/x86_64-linux-gnu/libabsl_*.so.20220623) -latomic -lpthread || exit 3
cd "$t" && timeout 120 ./demo
