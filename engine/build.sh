#!/bin/sh
# Builds the symbolic executor (offline; LLVM 18 and z3 development files).
set -e
cd "$(dirname "$0")"
out=${1:-../build}
mkdir -p "$out"
F="-O2 -std=c++17 -fno-exceptions"
CXX="clang++ -O2 -std=c++17 $(llvm-config-18 --cppflags) -fno-rtti -fexceptions"
$CXX -c expr.cpp -o "$out/expr.o" &
$CXX -c solver.cpp -o "$out/solver.o" &
$CXX -c vfse.cpp -o "$out/vfse.o" &
wait
$CXX "$out/expr.o" "$out/solver.o" "$out/vfse.o" -L"$(llvm-config-18 --libdir)" -lLLVM-18 -lz3 -o "$out/vfse.tmp"
mv "$out/vfse.tmp" "$out/vfse"
rm -f "$out/expr.o" "$out/solver.o" "$out/vfse.o"
