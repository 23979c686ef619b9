#!/bin/bash
# check.sh PROPERTY quick|thorough [EXPLORATION ITEM]: decides one property on /repo's working tree
V=$(cd "$(dirname "$0")" && pwd)
P=$1; T=${2:-quick}; shift 2
"$V/build.sh" "$P" || exit 3
S=$(mktemp -d /tmp/pfmc.XXXXXX)
trap 'rm -rf "$S"' EXIT
export LC_ALL=C
[ "$P" = P21 ] && export LD_LIBRARY_PATH=$V/build/pfi/lib
"$V/build/pfmc" "$P" "$T" "$V" "$S" "$V/build" "$@"
