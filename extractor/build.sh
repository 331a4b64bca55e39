#!/bin/bash
# Builds the fact extractor into /verif/build (git-ignored).
set -e
cd "$(dirname "$0")"
B=../build; mkdir -p $B
H=$(sha256sum extract.cpp build.sh | sha256sum | cut -c1-16)
[ -x $B/extract ] && [ "$(cat $B/extract.hash 2>/dev/null)" = "$H" ] && exit 0
L=/usr/lib/llvm-18
T=$(mktemp $B/extract.XXXXXX)
clang++ -std=c++17 -O1 -fno-rtti -w extract.cpp -o $T $($L/bin/llvm-config --cxxflags | sed 's/-std=[^ ]*//') \
   -L$L/lib $L/lib/libclang-cpp.so.18.1 $L/lib/libLLVM-18.so
mv -f $T $B/extract; echo $H > $B/extract.hash
