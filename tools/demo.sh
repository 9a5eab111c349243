#!/bin/bash
# Builds demo.cpp against the library in the current directory, for the library's own target, and runs it.
here="$(cd "$(dirname "$0")" && pwd)"; work="$(mktemp -d)"; export LC_ALL=C.UTF-8
export WINEPREFIX="$work/pfx" WINEDEBUG=-all WINEDLLOVERRIDES='mscoree,mshtml,winemenubuilder.exe,winedbg.exe=' WINEARCH=win64; unset DISPLAY WAYLAND_DISPLAY
clang++-18 --target=x86_64-w64-mingw32 -fms-extensions -fno-exceptions -O0 -Wno-everything -DGEN_BUILD_DEBUG=1 -DGEN_TIME -std=c++17 -fdelayed-template-parsing -static -Ibase "$here/demo.cpp" -o "$work/demo.exe" || { rm -rf "$work"; exit 3; }
cd "$work"; timeout -k 5 200 wine "$work/demo.exe" > "$work/log" 2>&1 < /dev/null; rc=$?
tail -n 20 "$work/log"; grep -q '^wine: Unhandled' "$work/log" && rc=9
wineserver -k > /dev/null 2>&1; sleep 0.3; cd /; rm -rf "$work"; exit $rc
