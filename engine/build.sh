#!/bin/bash
# build.sh OUT : compiles the engine
exec g++ -O2 -std=c++17 -fno-rtti -I/usr/lib/llvm-18/include -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS "$(dirname "$0")/symrs.cpp" -o "$1" -L/usr/lib/llvm-18/lib -lLLVM-18 -lz3
