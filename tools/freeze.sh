#!/bin/bash
# Re-creates ref/golden, the frozen reference copy, from /repo. Run by hand only, after
# a repair of the library has been reviewed; never run by a check.
set -e
V=$(cd "$(dirname "$0")/.." && pwd); G=$V/ref/golden
rm -rf "$V/ref/golden/lib" "$V/ref/golden/include"; mkdir -p $G
cp -r /repo/include /repo/lib $G/
find $G -type f ! -name '*.c' ! -name '*.h' -delete
t=$(mktemp -d)
for f in $(cd $G/lib && find . -name '*.c'); do gcc -w -std=c99 -D_DEFAULT_SOURCE -DKRIPTO_UNIX -I $G/include -I $G/lib -c $G/lib/$f -o $t/$(echo ${f:2} | tr / _).o; done
{ echo '/* gives the frozen copy its own external names */'; nm -g --defined-only $t/*.o | awk 'NF==3{print $3}' | sort -u | sed 's/.*/#define & ref_&/'; } > $G/rename.h
rm -rf "$t"
