#!/bin/bash
# compiles the demonstration against the library built in the current tree
set -e
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
L=.build-waf-default/src
clang -std=gnu11 -fblocks -funsigned-char -fno-strict-aliasing -fwrapv -O1 \
    -w -D_GNU_SOURCE -DHAS_LIBCOMMON_REPOSITORY=0 -D__gcc_has_no_ifunc \
    -march=x86-64-v2 -I. -Isrc/compat -I/usr/include/libxml2 \
    -I/usr/include/valgrind -DHAVE_OPENSSL=1 -DHAVE_ZLIB=1 -DHAVE_LIBXML=1 \
    "$here/demo.c" -o "$t/demo" \
    -Wl,--start-group $L/liblibcommon.a $L/liblibcommon-iop.a \
    $L/liblibcommon-minimal.a -Wl,--end-group \
    -lBlocksRuntime -lxml2 -lssl -lcrypto -lz -lm -lpthread -ldl -lrt
cd "$t"
timeout 120 ./demo
