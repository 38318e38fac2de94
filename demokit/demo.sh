#!/bin/bash
# builds the demonstration next to this file against /repo's sources (cwd) and runs it
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
w=$(mktemp -d)
trap 'rm -rf "$w"' EXIT
F="-std=c++17 -O0 -g -w -DASIO_STANDALONE -DASIO_HAS_STD_CHRONO -I$repo/include -I$repo/asio/asio/include"
skip=${SKIP:-asio_service.cxx}
for f in "$repo"/src/*.cxx "$here"/demo.cpp; do
    b=$(basename "$f")
    [ "$b" = "$skip" ] && continue
    g++ $F -c "$f" -o "$w/$b.o" &
done
wait
g++ "$w"/*.o -o "$w/demo" -lpthread || exit 3
cd "$w"
timeout 120 ./demo
