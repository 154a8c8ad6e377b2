#!/bin/sh
# run.sh TREE: run every demonstration against a source tree
t=$(readlink -f "$1"); h=$(readlink -f "$(dirname "$0")"); b=$(mktemp -d)
gcc -std=gnu2x -w -g -O1 -march=native -I$t/src -o $b/d $h/defects.c $t/src/reactor/*.c $t/src/picohttpparser/*.c -lssl -lcrypto -lpthread 2>$b/err || { cat $b/err; exit 2; }
cd $t; for i in $(seq 1 $(($($b/d) - 1))); do printf '%2d ' $i; $b/d $i 2>/dev/null; done
rm -r "$b"
