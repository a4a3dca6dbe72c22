#!/bin/bash
# Builds the symbolic executor into /verif/build/symex (needs LLVM 18 dev + z3 dev, both pre-installed).
set -e
D="$(cd "$(dirname "$0")/.." && pwd)"
mkdir -p "$D/build"
CXXF="$(/usr/bin/llvm-config-18 --cxxflags | sed 's/-std=[^ ]*//; s/-fno-exceptions//')"
cd "$D/engine"
pids=()
for f in expr module exec; do
  if [ ! -f "$D/build/$f.o" ] || [ -n "$(find . -newer "$D/build/$f.o" -name '*.[ch]pp' | head -1)" ]; then
    /usr/bin/g++ -std=c++17 -O2 -w $CXXF -fexceptions -c $f.cpp -o "$D/build/$f.o" & pids+=($!)
  fi
done
for p in "${pids[@]}"; do wait $p; done
/usr/bin/g++ "$D/build/expr.o" "$D/build/module.o" "$D/build/exec.o" -o "$D/build/symex.tmp" $(/usr/bin/llvm-config-18 --ldflags --libs core irreader support) -lz3
mv "$D/build/symex.tmp" "$D/build/symex"
