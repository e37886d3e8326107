#!/bin/sh
# Compiles demo.cpp against the library built from the current directory (the repository) and runs it.
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
s=$PWD/core/src
g++ -std=c++23 -O0 -DNDEBUG -w -I"$here" -I"$s/base" -I"$s/actions" -I"$s/bricks" -I"$s/containers" -I"$s/fluxes" -I"$s/processes" -I"$s/spatial" \
    -isystem /usr/include/eigen3 "$here/demo.cpp" -o "$tmp/demo" "$PWD/_build/core/src/libcore.a" -lyaml-cpp -lnetcdf || exit 3
cd "$tmp" && ./demo
