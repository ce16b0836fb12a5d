#!/bin/bash
# Builds the AST extractor into /verif/build (not committed).
set -e
here=$(cd "$(dirname "$0")" && pwd)
out="$here/../build"
mkdir -p "$out"
exec 9> "$out/.lock"
flock 9
if [ -x "$out/kmextract" ] && [ "$out/kmextract" -nt "$here/kmextract.cpp" ]; then exit 0; fi
/usr/bin/clang++ -O1 $(llvm-config-18 --cxxflags) -fno-rtti -w "$here/kmextract.cpp" -o "$out/kmextract.tmp" \
  /usr/lib/llvm-18/lib/libclang-cpp.so.18.1 $(ls /usr/lib/llvm-18/lib/libLLVM*.so* | head -1) -Wl,-rpath,/usr/lib/llvm-18/lib
mv "$out/kmextract.tmp" "$out/kmextract"
