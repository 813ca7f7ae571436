#!/bin/bash
# usage: replay.sh <property> <harness> <inputs> [native|asan|msan]   re-run a counterexample on the compiled code
D="$(cd "$(dirname "$0")" && pwd)"; B=$(mktemp -d)
case "${4:-native}" in
 asan) C="clang++ -O1 -g -fsanitize=address,undefined";;
 msan) C="clang++ -O1 -g -fsanitize=memory";;
 *) C="clang++ -O2 -ffp-contract=off";;
esac
$C -std=c++17 -DNDEBUG -w -fno-exceptions -rdynamic -I"${VP_REPO:-/repo}/include" -I"$D/harness" "$D/harness/$1.cpp" "$D/harness/vp_native.cpp" -ldl -o "$B/replay" && "$B/replay" "$2" "$3"
RC=$?; rm -rf "$B"; exit $RC
