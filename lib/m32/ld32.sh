#!/bin/sh
# Links 32-bit programs against the libraries that programs load: there are no others here.
# $LD32_DIR: a directory for the start file and the names the linker looks for
here=$(cd "$(dirname "$0")" && pwd)
d=$LD32_DIR
mkdir -p "$d"
gcc -m32 -c "$here/start.s" -o "$d/start.$$.o" || exit 1
for l in c m pthread dl rt gcc_s util; do
    for f in /lib32/lib$l.so.* /usr/lib32/lib$l.so.*; do
        [ -e "$f" ] && ln -sf "$f" "$d/lib$l.so"
    done
done
gcc -m32 -nostdlib "$d/start.$$.o" -L"$d" "$@" -lc -lgcc_s -Wl,--dynamic-linker=/lib32/ld-linux.so.2
r=$?
rm -f "$d/start.$$.o"
exit $r
