#!/bin/bash
# builds demo.cc against the libraries built from /repo and runs it
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
B=/repo/_build/c++/src
clang++-18 -std=gnu++2b -stdlib=libc++ -O1 -g1 -DDEBUG -DKJ_USE_FIBERS -w -I/repo/c++/src -I/repo/_build/gen -I/repo/_build/c++/src "$D/demo.cc" -o "$T/demo" \
  $B/capnp/libcapnp.a $B/kj/libkj.a -fuse-ld=lld -pthread -ldl >"$T/log" 2>&1 || { tail -5 "$T/log"; exit 90; }
cd "$T" && timeout 120 ./demo
