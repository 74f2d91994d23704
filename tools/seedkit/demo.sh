#!/bin/bash
# Compiles the small program beside it against the library built from /repo, and runs it in a scratch directory.
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 3
trap 'rm -rf "$tmp"' EXIT
g++ -std=c++23 -O0 -w -DNDEBUG -I"$here" $(find /repo/core/src -mindepth 1 -type d -printf ' -I%p') -isystem /usr/include/eigen3 \
  "$here/demo.cpp" /repo/_build/core/src/libcore.a -lyaml-cpp -lnetcdf -o "$tmp/demo" || exit 4
cd "$tmp" && ./demo
