#!/bin/bash
# build.sh SRC_ROOT OUT [extra compiler flags]: the scenarios with the library's sources, from SRC_ROOT/src and SRC_ROOT/include
here=$(cd "$(dirname "$0")" && pwd); root=$1; out=$2; shift 2
w=malloc,free,calloc,realloc,strdup,strndup,fopen,fopen64,tmpfile,tmpfile64,fclose,rename,remove,unlink
wrap=$(echo $w | tr ',' '\n' | sed 's/^/-Wl,--wrap=/' | tr '\n' ' ')
exec gcc -g -O1 -w -std=gnu99 -fno-omit-frame-pointer -fno-builtin -fsanitize=address "$@" -I"$root/include" -I"$root/src" "$here/scen.c" $(find "$root/src" -name '*.c' | sort) $wrap -o "$out"
