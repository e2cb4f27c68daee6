#!/bin/bash
# run with cwd /repo: 0 if the library behaves, nonzero otherwise
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf -- "${t:?}"' EXIT
gcc -w -g -O1 -std=gnu99 @FLAGS@ -Isml/include -I"$d" "$d/demo.c" sml/src/*.c -o "$t/demo" -luuid -lm -lpthread || exit 3
cd "$t" || exit 2
ASAN_OPTIONS=detect_leaks=0:abort_on_error=0 timeout 120 ./demo
