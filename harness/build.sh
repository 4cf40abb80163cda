#!/bin/bash
# build.sh OUT : real sources of /repo + harness, ASan+UBSan
set -e
here=$(cd "$(dirname "$0")" && pwd); R=${REPO:-/repo}
F="-g -O1 -fsanitize=address,undefined -fno-sanitize=pointer-overflow -fno-sanitize-recover=all -fno-omit-frame-pointer -DHAVE_CONFIG_H -I$here/../stubcfg -I$R/include -I$R/src -Wno-everything"
clang $F -Wl,--wrap=malloc,--wrap=calloc,--wrap=free,--wrap=realloc -o "$1" "$here/h.c" "$R"/src/samplerate.c "$R"/src/src_*.c $(ls "$R"/src/*.c | grep -v -e '/samplerate.c$' -e '/src_') -lm
