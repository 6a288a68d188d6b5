#!/bin/bash
# Builds the fact extractor into /verif/.cache/bin (idempotent, offline).
set -e
here="$(cd "$(dirname "$0")" && pwd)"
out="${1:-$here/../.cache/bin}"
mkdir -p "$out"
key=$(sha256sum "$here/factgen.cpp" | cut -d' ' -f1)
if [ -x "$out/factgen" ] && [ "$(cat "$out/factgen.key" 2>/dev/null)" = "$key" ]; then exit 0; fi
tmp="$out/factgen.$$"
clang++ -O0 -std=c++17 -fno-rtti -fno-exceptions -w -I/usr/lib/llvm-18/include \
  -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS -D_GNU_SOURCE \
  "$here/factgen.cpp" -o "$tmp" /usr/lib/llvm-18/lib/libclang-cpp.so.18.1 -L/usr/lib/llvm-18/lib -lLLVM-18
mv -f "$tmp" "$out/factgen"
echo "$key" > "$out/factgen.key"
