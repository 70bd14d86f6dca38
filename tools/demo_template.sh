#!/bin/bash
# builds demo.cc with the tree's sources (cwd) and runs it in a private wine prefix
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d /tmp/demo.XXXXXX)
export WINEPREFIX=$t/wine WINEDEBUG=-all WINEDLLOVERRIDES='mscoree,mshtml=;winemenubuilder.exe=d'; unset DISPLAY
trap 'wineserver -k 2>/dev/null; rm -rf "$t"' EXIT
printf 'const char GenVersion_Version[] = "0";\nconst char GenVersion_Commit[] = "0";\n' > "$t/GenVersion.h"
x86_64-w64-mingw32-g++-posix -std=gnu++11 -w -O1 -static -fno-access-control -DUNICODE -D_UNICODE -D_WIN32_WINNT=0x0501 -I. -Isrc/include -I"$d" -I"$t" FLAGS "$d/demo.cc" SRCS -o "$t/demo.exe" || exit 3
cp -a /opt/vp/wine "$t/wine"
timeout 200 wine "$t/demo.exe" < /dev/null
