#!/bin/sh
# run in /repo: compiles the sources with the program beside this file and runs it
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
gcc -std=gnu11 -g -w -fsanitize=address,undefined -fno-sanitize-recover=undefined -DUSH_CONFIG_PLATFORM_POSIX -Isrc -I"$D" src/src/*.c src/src/commands/*.c "$D/demo.c" -o "$T/demo" || exit 2
timeout 60 env ASAN_OPTIONS=detect_leaks=0 "$T/demo"
