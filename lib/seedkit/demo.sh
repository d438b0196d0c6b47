#!/bin/bash
# builds demo.cc against the library as it is and runs it
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -r "$t"' EXIT
B=_build/src
g++ -std=c++14 -O1 -w -DNDEBUG -I"$d" -Ilibs -Isrc -I_build/src/core/cfg -I_build/src/core -I_build/src/util/cfg "$d/demo.cc" -o "$t/demo" \
  $B/core/training/libjpp_core_train.a $B/core/libjpp_core.a $B/rnn/libjpp_rnn.a $B/util/libjpp_util.a _build/libs/pathie-cpp/libpathie.a -lpthread || exit 2
cd "$t" && timeout 60 ./demo
