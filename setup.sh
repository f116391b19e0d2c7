#!/bin/bash
# Builds the symbolic executor and the runtime library it links (offline, from committed files only).
set -e
cd "$(dirname "$0")"
mkdir -p build
stamp=$(cat engine/*.cpp setup.sh | sha256sum | cut -c1-16)
if [ -f "build/stamp" ] && [ "$(cat build/stamp)" = "$stamp" ] && [ -x build/symex ] && [ -f build/rt.bc ]; then exit 0; fi
tmp=$(mktemp -d build/tmp.XXXXXX)
g++ -O2 -std=c++17 -fno-rtti $(llvm-config-18 --cxxflags | sed 's/-fno-exceptions//') engine/symex.cpp -o "$tmp/symex" $(llvm-config-18 --ldflags) -lLLVM-18 -lz3 &
p1=$!
for f in rt_std rt_model; do
    clang++-18 -std=gnu++17 -O0 -Xclang -disable-O0-optnone -fno-access-control -S -emit-llvm -w "engine/$f.cpp" -o "$tmp/$f.ll" &
    eval "p_$f=$!"
done
wait $p1; wait $p_rt_std; wait $p_rt_model
"$tmp/symex" "$tmp/rt_std.ll" "$tmp/rt_model.ll" --emit "$tmp/rt.bc"
mv -f "$tmp/symex" build/symex
mv -f "$tmp/rt.bc" build/rt.bc
rm -rf "$PWD/$tmp"
echo "$stamp" > build/stamp
