#!/bin/bash
# Compiles demo.c against the library built by build.sh; demo.c says what must hold.
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
L=/repo/_build/src/c
gcc -std=gnu99 -g -w -D_FILE_OFFSET_BITS=64 -DDEBUG DEMOFLAGS -I"$here" -I/repo/c/include -I/repo/c/lib/libstemmer_c/include "$here/demo.c" $L/libferret.a -o "$t/demo" -lm -lpthread -lz || exit 2
cd "$t" && mkdir -p work && timeout 200 ./demo "$t/work"
