#!/bin/bash
# Builds the simulator and the program copies from the working tree of the
# repository (default /repo) into /verif/build. Offline; uses all cores.
# build.sh [core|libs|all]
set -e
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=${NSCA_REPO:-/repo}
B=${NSCA_BUILD:-$HERE/../build}
mkdir -p "$B/cfg" "$B/cfg_sync" "$B/obj"
# One build at a time in one directory.
exec 9>"$B/.lock"; flock 9
rm -f "$B/prog.ok"
cmp -s "$HERE/config/config.h" "$B/cfg/config.h" || cp "$HERE/config/config.h" "$B/cfg/config.h"
sed 's/^#define HAVE_POSIX_AIO 1/\/* #undef HAVE_POSIX_AIO *\//' "$HERE/config/config.h" > "$B/cfg_sync/config.h"
exec make -s -j"$(nproc)" -f "$HERE/Makefile" -C "$B" ${SIM_SAN+SAN="$SIM_SAN"} HERE="$HERE" REPO="$REPO" "${1:-all}"
