#!/bin/bash
# builds the demonstration against the library sources in the current directory and runs it in a scratch folder
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
FL=$(cat "$D/flags" 2>/dev/null); SRC=""; for f in src/*.cpp src/hdagg/*.cpp utils/*.cpp; do case $f in *SuperNodalTools.cpp|*FusionDemo.cpp) ;; *) SRC="$SRC $f";; esac; done
for f in $SRC; do echo "$f"; done | xargs -P 8 -I{} sh -c 'g++ -std=c++14 -w -O1 -DNDEBUG -DMETIS '"$FL"' -fsanitize=address -Iinclude -Iinclude/aggregation -c {} -o '"$T"'/$(basename {}).o || true'
g++ -std=c++14 -w -O1 -DNDEBUG $FL -fsanitize=address -Iinclude -Iinclude/aggregation -I"$D" "$D/demo.cpp" "$T"/*.o -Wl,--unresolved-symbols=ignore-all -o "$T/demo" || exit 0
cd "$T" && ASAN_OPTIONS=detect_leaks=0 timeout 250 "$T/demo" > "$T/log" 2>&1; rc=$?; tail -3 "$T/log"; exit $rc
