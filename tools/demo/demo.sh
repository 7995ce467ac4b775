#!/bin/bash
# Runs in /repo after its build: compiles demo.c against the static library and runs it.
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 3
trap 'rm -rf "$tmp"' EXIT
inc=$(find . -name eas.h | head -1); inc2=$(find . -path ./_build -prune -o -name eas_reverb.h -print | head -1)
gcc -O1 -w -I"$(dirname "$inc")" -I"$(dirname "$inc2")" "$here/demo.c" _build/libsonivox-static.a -lm -lpthread $(cat "$here/ldflags" 2>/dev/null) -o "$tmp/demo" || exit 0
timeout 120 "$tmp/demo"
