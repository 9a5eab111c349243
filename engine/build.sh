#!/bin/bash
# Builds the symbolic executor: build.sh OUT
set -e
mkdir -p "$1"; set -- "$(cd "$1" && pwd)"; cd "$(dirname "$0")"
L="$(llvm-config-18 --cppflags)"; K="$(llvm-config-18 --ldflags) -lLLVM-18"
mkdir -p "$1"
g++ -std=c++17 -O2 -fno-rtti -w $L symex.cpp expr.cpp -o "$1/symex" $K -lz3 &
g++ -std=c++17 -O1 -fno-rtti -w $L retarget.cpp -o "$1/retarget" $K &
g++ -std=c++17 -O1 -fno-rtti -w $L bindc.cpp -o "$1/bindc" $K &
clang-18 -O1 -w -c native_rt.c -o "$1/native_rt.o" &
clang-18 -O1 -w -c native_files.c -o "$1/native_files.o"
wait %1; wait %2; wait %3; wait %4
