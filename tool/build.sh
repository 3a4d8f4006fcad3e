#!/bin/bash
# Builds the extractor (libTooling, clang 18) into $1 unless it is there already.
set -e
here=$(cd "$(dirname "$0")" && pwd)
out=${1:-$here/../.build/yx}
mkdir -p "$(dirname "$out")"
sum=$(sha256sum < "$here/yx.cpp")
if [ -x "$out" ] && [ "$(cat "$out.sum" 2>/dev/null)" = "$sum" ]; then exit 0; fi
flags=$(llvm-config-18 --cxxflags | sed 's/-std=[^ ]*//; s/-fno-exceptions//')
tmp="$out.$$"
g++ -std=c++17 -fno-rtti -O1 -w $flags "$here/yx.cpp" \
    /usr/lib/llvm-18/lib/libclang-cpp.so.18.1 -L/usr/lib/llvm-18/lib -lLLVM-18 \
    -Wl,-rpath,/usr/lib/llvm-18/lib -o "$tmp"
mv -f "$tmp" "$out"
echo "$sum" > "$out.sum"
