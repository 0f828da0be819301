#!/bin/bash
# builds the symbolic executor into $1 (default: /verif/build)
set -e
here="$(cd "$(dirname "$0")" && pwd)"; out="${1:-$here/../build}"; mkdir -p "$out"
Z3=/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3
if [ -f "$Z3/include/z3++.h" ] && [ -f "$Z3/lib/libz3.so" ]; then ZF="-I$Z3/include"; ZL="-L$Z3/lib -Wl,-rpath,$Z3/lib -lz3"; else ZF=""; ZL="-lz3"; fi
/usr/bin/clang++-18 -std=c++17 -O2 -fexceptions $ZF -I/usr/lib/llvm-18/include "$here/sgsym.cpp" -o "$out/sgsym.tmp$$" -L/usr/lib/llvm-18/lib -lLLVM-18 $ZL -lgmpxx -lgmp -llapack -lblas -lpthread
mv "$out/sgsym.tmp$$" "$out/sgsym"
