#!/bin/bash
# build the driver from /repo's working tree: mkdrv.sh OUTDIR
set -e
R=${PBC_REPO:-/repo}; O=$1; H=$(cd "$(dirname "$0")/.." && pwd)
mkdir -p "$O"
ls "$R"/arith/*.c "$R"/ecc/*.c "$R"/misc/*.c | grep -v -e 'win32\.c$' -e '/tinyfp\.c$' |
 xargs -P 8 -I{} sh -c 'gcc -std=gnu99 -O1 -g -w -fsanitize=address,undefined -fno-sanitize=shift,alignment,signed-integer-overflow -fno-sanitize-recover=undefined -I'"$R"'/include -I'"$R"' -c {} -o '"$O"'/$(basename {} .c).o || exit 255'
gcc -std=gnu99 -O1 -g -w -fsanitize=address,undefined -I"$R/include" -I"$R" -c "$H/c/drv.c" -o "$O/drv.o"
gcc -fsanitize=address,undefined "$O"/*.o -o "$O/drv" -lgmp -lm
rm -f "$O"/*.o
