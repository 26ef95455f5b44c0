#!/bin/bash
# build the demonstration against the DLB library built in /repo and run it
D=$(cd "$(dirname "$0")" && pwd); W=$(mktemp -d); trap 'rm -rf "$W"' EXIT
B=${B:-_build}
gcc -w -g -D_GNU_SOURCE -DHAVE_CONFIG_H -I"$D" -I$B -I$B/src -I$B/src/apis -Isrc -Isrc/apis -Itests/test "$D/demo.c" -o "$W/demo" -Wl,--whole-archive $B/libdlb_test.a -Wl,--no-whole-archive $B/libdlb_common.a -lhwloc -lpapi -lm -lrt -ldl -lpthread || exit 0
cd "$W" && timeout 60 ./demo
