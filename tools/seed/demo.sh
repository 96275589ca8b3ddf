#!/bin/bash
# Builds the library from the current directory (a checkout of the repository) on the VAL stand-in
# beside this file and runs demo.cpp against it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
ulimit -v 8000000
flags="-std=c++17 -O0 -w -DDOCTEST_CONFIG_DISABLE -I$here -I$here/shim -I$repo/include -I$repo/src -I/usr/include/eigen3"
{ ls "$repo"/src/*.cc "$repo"/src/planning/*.cc "$repo"/src/utils/*.cc | grep -v doctest.cc
  ls "$here"/shim/*.cpp "$here"/*.cpp; } > "$t/list"
n=0
while read -r f; do n=$((n + 1)); echo "$f $t/$n.o"; done < "$t/list" |
  xargs -P 8 -L 1 sh -c "g++ $flags -c \"\$0\" -o \"\$1\"" || { echo "does not compile"; exit 3; }
g++ "$t"/*.o -lpthread -o "$t/demo" || exit 3
timeout 60 "$t/demo"
