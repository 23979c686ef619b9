#!/bin/bash
# Builds the framework from /repo's working tree and the checker (both under
# /verif/build), incrementally. Usage: build.sh [PROPERTY]
set -e
V=$(cd "$(dirname "$0")" && pwd)
REPO=${REPO:-/repo}
B=$V/build
mkdir -p "$B"
exec 9>"$B/lock"
flock 9
PF=$B/pf
LOG=$B/build.log
if [ ! -f "$PF/build.ninja" ]; then
    rm -rf "$PF"
    CC=gcc CXX=g++ cmake -S "$REPO" -B "$PF" -G Ninja -Wno-dev -DCMAKE_BUILD_TYPE=Debug \
        -DCMAKE_POLICY_VERSION_MINIMUM=3.5 \
        "-DCMAKE_CXX_COMPILE_OBJECT=<CMAKE_CXX_COMPILER> <DEFINES> <INCLUDES> <FLAGS> -Wno-error -o <OBJECT> -c <SOURCE>" \
        -DBUILD_TESTING=OFF -DPYTHON_BINDINGS=OFF -DCLIENT_SIMULATOR=OFF \
        -DCMAKE_CXX_FLAGS="-O1 -g0" >"$LOG" 2>&1 || { tail -30 "$LOG" >&2; exit 3; }
fi
ninja -C "$PF" >"$LOG" 2>&1 || { tail -40 "$LOG" >&2; exit 3; }
# P21 also needs a build that reports its memory accesses to the checker
if [ -z "$1" ] || [ "$1" = P21 ]; then
    PFI=$B/pfi
    if [ ! -f "$PFI/build.ninja" ]; then
        rm -rf "$PFI"
        W=-Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset
        CC=gcc CXX=g++ cmake -S "$REPO" -B "$PFI" -G Ninja -Wno-dev -DCMAKE_BUILD_TYPE=Debug \
            -DCMAKE_POLICY_VERSION_MINIMUM=3.5 \
            "-DCMAKE_CXX_COMPILE_OBJECT=<CMAKE_CXX_COMPILER> <DEFINES> <INCLUDES> <FLAGS> -fsanitize=thread -Wno-error -o <OBJECT> -c <SOURCE>" \
            -DBUILD_TESTING=OFF -DPYTHON_BINDINGS=OFF -DCLIENT_SIMULATOR=OFF \
            -DCMAKE_CXX_FLAGS="-O1 -g0" -DCMAKE_SHARED_LINKER_FLAGS="$W" \
            >"$LOG" 2>&1 || { tail -30 "$LOG" >&2; exit 3; }
    fi
    ninja -C "$PFI" parameter >"$LOG" 2>&1 || { tail -40 "$LOG" >&2; exit 3; }
fi
make -s -C "$V/mc" -j8 REPO="$REPO" PF="$PF" OUT="$B" >>"$LOG" 2>&1 || { tail -40 "$LOG" >&2; exit 3; }
