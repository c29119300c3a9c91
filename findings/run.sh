#!/bin/bash
# findings/run.sh SRC_ROOT: runs every demonstration against the sources in SRC_ROOT (src/, include/)
here=$(cd "$(dirname "$0")" && pwd); root=$(realpath "$1"); w=$(mktemp -d); trap 'rm -rf "$w"' EXIT
cd "$w" && gcc -g -w -std=gnu99 -fsanitize=address,undefined -fno-sanitize-recover=undefined -I"$root/include" -I"$root/src" "$here/repro.c" $(find "$root/src" -name '*.c') -o repro || exit 2
for c in $(./repro); do
  leak=0; case $c in leak*) leak=1;; esac
  ASAN_OPTIONS=detect_leaks=$leak:allocator_may_return_null=1 timeout 20 ./repro $c >out 2>&1; rc=$?
  printf '%-14s %s  %s\n' "$c" "$([ $rc = 0 ] && echo ok || echo "FAIL($rc)")" "$(grep -m1 -E 'CHECK failed|ERROR: AddressSanitizer|runtime error|LeakSanitizer' out | cut -c1-110)"
done
