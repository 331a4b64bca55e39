#!/bin/bash
# buildlib.sh REPO OUTDIR [extra flags]: compiles the library (LLVM backend only) into OUTDIR/libdrjit.a
R=$1; O=$2; shift 2; D=$(cd "$(dirname "$0")" && pwd)
mkdir -p $O
F="-std=c++17 -O1 -w -fPIC -mf16c -DNDEBUG -DDRJIT_BUILD=1 -DDRJIT_DYNAMIC_LLVM=1 -DDRJIT_DYNAMIC_CUDA=1 -DLZ4LIB_VISIBILITY= -I$D/inc -I$R -I$R/include -I$R/ext/lz4 $*"
for f in $(cd $R/src; ls *.cpp | grep -v -E '^(cuda_|optix_|metal_|gl_interop)'); do echo $R/src/$f; done > $O/list
echo $D/nanothread.cpp >> $O/list
xargs -P 8 -I{} sh -c 'b=$(basename {} .cpp); g++ '"$F"' -c {} -o '$O'/$b.o || echo FAIL {}' < $O/list
for f in lz4 xxhash; do [ -f $R/ext/lz4/$f.c ] && gcc -O2 -w -fPIC -DLZ4LIB_VISIBILITY= -DXXH_NAMESPACE= -c $R/ext/lz4/$f.c -o $O/$f.o; done
rm -f $O/libdrjit.a; ar rcs $O/libdrjit.a $O/*.o
python3 - $R/resources/kernels_dict.lz4 > $O/dict.cpp <<'P'
import sys
d=open(sys.argv[1],'rb').read()
print('extern "C" const char kernels_dict[]; extern const char kernels_dict[%d]; const char kernels_dict[]={%s};'%(len(d),','.join(str(b-256 if b>127 else b) for b in d)) if False else 'extern "C" { extern const char kernels_dict[]; const char kernels_dict[]={%s}; }'%','.join(str(b-256 if b>127 else b) for b in d))
P
sed -n 1,20p $R/resources/kernels.h | grep -q 'extern "C"' || sed -i 's/extern "C" {//; s/ }$//' $O/dict.cpp
g++ -w -fPIC -c $O/dict.cpp -o $O/dict.o; ar rcs $O/libdrjit.a $O/dict.o
