#!/bin/bash
# build the symbolic executor into $1
set -e
cd "$(dirname "$0")"
clang++-18 -O2 -std=c++17 -fno-rtti -fexceptions $(llvm-config-18 --cppflags) -w msym.cpp -o "$1" -L/usr/lib/llvm-18/lib -lLLVM-18 -lz3
