#!/bin/bash
# Compiles the sources named in SRCS together with demo.cpp against the current tree and runs it.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
. "$here/demo.conf"
tmp=$(mktemp -d) || exit 3
trap 'rm -rf "$tmp"' EXIT
mkdir "$tmp/shim" && tar xzf "$here/shim.tgz" -C "$tmp/shim" || exit 3
F="-std=c++11 -w -O1 -g -DBOOST_DISABLE_PRAGMA_MESSAGE -DBOOST_NO_CXX11_EXPLICIT_CONVERSION_OPERATORS -DPION_CMAKE_BUILD -include boost/logic/tribool_io.hpp -I$tmp/shim -I$repo/include ${CFLAGS:-}"
pids=""
for s in $SRCS; do
    g++ $F -c -o "$tmp/$(basename "$s" .cpp).o" "$repo/$s" & pids="$pids $!"
done
g++ $F -c -o "$tmp/demo_main.o" "$here/demo.cpp" & pids="$pids $!"
for p in $pids; do wait $p || { echo "demo: compilation failed"; exit 3; }; done
g++ $F -o "$tmp/demo" "$tmp"/*.o -lboost_thread -lboost_filesystem -lboost_regex -lboost_system -lssl -lcrypto -lz -ldl -lpthread || exit 3
cd "$tmp" && timeout ${LIMIT:-60} ./demo
rc=$?
[ $rc = 0 ] && echo "demo: property holds" || echo "demo: property broken (rc=$rc)"
exit $rc
