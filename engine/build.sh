#!/bin/bash
# Builds the symbolic executor into $1 (default /verif/build/symex).
set -e
D=$(cd "$(dirname "$0")" && pwd)
OUT=${1:-$D/../build/symex}
mkdir -p "$(dirname "$OUT")"
Z=/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3
if [ -e $Z/lib/libz3.so ]; then ZI="-I$Z/include"; ZL="-L$Z/lib -lz3 -Wl,-rpath,$Z/lib"; else ZI=""; ZL="-lz3"; fi
TMP=$OUT.tmp.$$
g++ -std=c++20 -O2 -w $ZI -I/usr/lib/llvm-18/include -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS \
  "$D/symex.cpp" -o "$TMP" -L/usr/lib/llvm-18/lib -lLLVM-18 $ZL
mv -f "$TMP" "$OUT"
