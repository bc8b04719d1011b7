#!/bin/bash
# Builds the fact extractor and (best effort) a precompiled header of the
# external (boost/std) headers. Output goes to the directory given as $1.
set -e
D="$(cd "$(dirname "$0")" && pwd)"; OUT="${1:-$D/../build}"; mkdir -p "$OUT"; OUT="$(cd "$OUT" && pwd)"
CXXF="$(llvm-config-18 --cxxflags 2>/dev/null || /usr/lib/llvm-18/bin/llvm-config --cxxflags)"
CXXF="$(echo "$CXXF" | sed 's/-std=c++[0-9]*//;s/-DNDEBUG//')"
if [ ! -x "$OUT/gfacts" ] || [ "$D/gfacts.cpp" -nt "$OUT/gfacts" ]; then
  g++ -O1 -std=c++17 -fno-rtti $CXXF "$D/gfacts.cpp" -o "$OUT/gfacts.tmp.$$" -L/usr/lib/llvm-18/lib -l:libclang-cpp.so.18.1 -lLLVM-18
  mv "$OUT/gfacts.tmp.$$" "$OUT/gfacts"
fi
