#!/bin/bash
# cwd: /repo after the build. Exit 0: the behaviour is right.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 9
trap 'rm -rf "$T"' EXIT
g++ -std=c++20 -O1 -DFMT_DEPRECATED_OSTREAM -DFMT_CONSTEVAL= -DSPDLOG_FMT_EXTERNAL -DSPDLOG_COMPILED_LIB -I"$PWD/include" -I"$PWD/_build" "$D/demo.cpp" "$PWD/_build/src/libcppsas7bdat.a" -lspdlog -lfmt -pthread -o "$T/demo" || exit 9
cd "$T" && timeout 120 ./demo
