#!/bin/bash
# builds and runs demo.cpp against the library headers in the current directory
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d /tmp/demo_XXXXXX)
g++ -std=c++17 -O1 -DNDEBUG -w -pthread -I"$PWD" -fno-access-control "$d/demo.cpp" -o "$t/demo" -lblitz -lboost_timer -lboost_thread -lboost_system || { rm -rf "$t"; exit 2; }
(cd "$t" && timeout 120 ./demo); r=$?; rm -rf "$t"; exit $r
