#!/bin/bash
# check.sh PROPERTY: builds and decides one property (VERIF_TIER, VERIF_SEED)
cd "$(dirname "$0")" || exit 2
V=$(pwd)
TIER="${2:-${VERIF_TIER:-quick}}"
with=
[ "$TIER" = thorough ] && case "$1" in C10) with=asan ;; C24) with=tsan ;; esac
./build.sh $with || { echo "build failed" >&2; exit 2; }
export VERIF_TIER="$TIER"
exec build/driver/release/tiv "$1" "$V/build/repo/release/ti-tools" "$V/build/shim.so" "$V/build/libcheck/release/libcheck" "$V"
