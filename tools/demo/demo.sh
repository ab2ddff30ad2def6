#!/bin/bash
# Compiles demo.cpp against the library built in /repo/_build, and runs it in a
# scratch directory. Exit code: 0 when the property holds.
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'cd /; rm -rf "$t"' EXIT
g++ -std=c++20 -g -D_GLIBCXX_DEBUG -D_FILE_OFFSET_BITS=64 -DJOEDB_HAS_ASIO -DJOEDB_HAS_BOOST \
 -I/repo/src -I/repo/doc/source/tutorial/src -I"$here" -o "$t/demo" "$here/demo.cpp" \
 -L/repo/_build -ljoedb -Wl,-rpath,/repo/_build -pthread || exit 2
cd "$t" || exit 2
timeout 120 ./demo
r=$?
echo "exit code $r"
exit $r
