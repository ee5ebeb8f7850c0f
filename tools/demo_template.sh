#!/bin/bash
# Builds demo.cpp against the built libraries and runs it: exit 0 when the behaviour is right.
set -e
H=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
B=$PWD/_build
g++ -g -DXXH_INLINE_ALL -DFMT_SHARED -I"$PWD/bnl/http3/include" -I"$B/bnl/http3/include" -I"$PWD/bnl/base/include" -I"$B/bnl/base/include" \
  -isystem "$B/_deps/outcome" -isystem /opt/vp/deps/xxhash -include /opt/vp/deps/compat/compat.hpp \
  "$H/demo.cpp" -o "$T/demo" "$B/bnl/http3/lib/libbnl-http3.a" "$B/bnl/base/lib/libbnl-base.a" /usr/lib/x86_64-linux-gnu/libfmt.so
cd "$T"
timeout 120 ./demo
