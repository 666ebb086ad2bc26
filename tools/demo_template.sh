#!/bin/bash
# Run in the repository's root after its build; everything it makes goes into a scratch directory.
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 0
trap 'find "$t" -depth -delete' EXIT
[ ! -f "$d/img.py" ] || (cd "$d" && PYTHONDONTWRITEBYTECODE=1 python3 "$d/img.py" "$t") || exit 0
gcc -g -w -std=gnu99 @FLAGS@ -Iinclude -I"$d" -o "$t/demo" "$d/demo.c" @SRC@ -lz -lpthread || exit 0
mkdir "$t/tmp"; export TMPDIR="$t/tmp" ASAN_OPTIONS=@ASAN@
timeout 200 "$t/demo" "$t/img" "$t"
