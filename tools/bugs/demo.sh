#!/bin/bash
# exit 0: the property held in the demonstration; 1: it was violated.  Run with cwd /repo after the build.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
g++ -std=gnu++17 -O0 -w -isystem /usr/lib/llvm-19/include -Iinclude -Iathena -I"$D" "$D/demo.cc" -rdynamic \
  _build/libathena.a _build/libjitfusion.a -L/usr/lib/llvm-19/lib -Wl,-rpath,/usr/lib/llvm-19/lib -lLLVM-19 -pthread -o "$T/demo" || exit 3
cd "$T" && timeout 100 "$T/demo"
rc=$?
[ $rc = 0 ] && exit 0
echo "demo: rc $rc"
exit 1
