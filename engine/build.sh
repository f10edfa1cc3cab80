#!/bin/bash
# Builds the IR lowering tool from committed sources (offline; clang 20 dev files).
set -e
cd "$(dirname "$0")"
mkdir -p ../build
L=/usr/lib/llvm-20
if [ ../build/irdump -nt irdump.cc ] && [ -x ../build/irdump ]; then exit 0; fi
$L/bin/clang++ -std=c++17 -O1 -fno-rtti -w -I$L/include -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS \
  -D__STDC_LIMIT_MACROS irdump.cc -o ../build/irdump.tmp -L$L/lib $L/lib/libclang-cpp.so.20.1 $L/lib/libLLVM.so.20.1 -Wl,-rpath,$L/lib
mv ../build/irdump.tmp ../build/irdump
