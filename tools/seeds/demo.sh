#!/bin/bash
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 9
trap 'rm -rf "$t"' EXIT
lib=_build/@FLAVOUR@
inc=$(dirname "$(find "$lib" -name version.h -path '*mbelib-neo*' | head -n 1)")
@CC@ -std=gnu11 -w -O1 @FLAGS@ -Iinclude -I"$inc/.." -I"$d" "$d/demo.c" "$lib/libmbe-neo.a" -lm -lpthread -o "$t/demo" || exit 9
timeout 120 "$t/demo" 2>"$t/err"; r=$?
head -c 2000 "$t/err" >&2
exit $r
