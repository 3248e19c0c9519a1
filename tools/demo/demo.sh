#!/bin/bash
# Builds the sources of /repo (cwd) with demo.c and runs the result in a scratch directory.
# Exit 0: behaviour as promised.  Nonzero: broken.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
work=$(mktemp -d) || exit 70
trap 'rm -rf "$work"' EXIT
W="-w -g -O1 -std=gnu90 -include stdlib.h -fsanitize=address -fno-omit-frame-pointer -fno-common -D_GNU_SOURCE"
I="-I $repo/include -I $repo/libCrashDebug/src -I $here/stubs/include -I $here"
cd "$work" || exit 70
srcs="$repo/libCrashDebug/src/*.c $repo/libcommon/src/*.c"
if [ @MODE@ = main ]; then
    gcc $W $I -Dmain=crashdebug_main -c "$repo/main/main.c" -o main.o || exit 71
    gcc $W $I -DNO_CONSOLE_STUBS -o demo $srcs "$repo/main/MockDefaults.c" main.o "$here/stubs.c" "$here/demo.c" || exit 71
else
    gcc $W $I -o demo $srcs $repo/libmocks/src/*.c "$here/stubs.c" "$here/demo.c" || exit 71
fi
export ASAN_OPTIONS=detect_leaks=@LEAKS@:exitcode=99
timeout -k 5 60 ./demo
