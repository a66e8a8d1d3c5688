#!/bin/bash
# Builds everything the checks need, offline: the tool under test from /repo's working tree, the
# library harness, the monitor library and the driver. /repo itself is only read.
cd "$(dirname "$0")" || exit 2
V=$(pwd)
mkdir -p build
exec 9>build/lock
flock 9
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= RUSTUP_TOOLCHAIN=stable CARGO_INCREMENTAL=0
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET CARGO_TARGET_DIR
build() { # name, manifest, args...
    local n=$1 m=$2
    shift 2
    if ! "$@" cargo build --quiet --release --offline --manifest-path "$m" --target-dir "$V/build/$n" >"build/$n.log" 2>&1; then
        cat "build/$n.log" >&2
        return 1
    fi
}
# cargo decides by modification times; sources that were put back are rebuilt because of this
h=$(cd /repo && find src Cargo.toml Cargo.lock -type f -print0 2>/dev/null | sort -z | xargs -0 sha256sum | sha256sum | cut -c1-64)
if [ "$h" != "$(cat build/repo.hash 2>/dev/null)" ]; then
    for p in ti-tools ti_tools; do
        rm -rf "$V"/build/repo/release/.fingerprint/$p-* "$V"/build/libcheck/release/.fingerprint/$p-* "$V"/build/libjobs/release/.fingerprint/$p-*
    done
    rm -f "$V/build/repo.hash" "$V/build/repo/release/ti-tools" "$V/build/libcheck/release/libcheck" "$V/build/libjobs/release/libjobs"
fi
# the tool as released, with arithmetic overflow and debug assertions made fatal
build repo /repo/Cargo.toml env CARGO_PROFILE_RELEASE_DEBUG_ASSERTIONS=true CARGO_PROFILE_RELEASE_OVERFLOW_CHECKS=true CARGO_PROFILE_RELEASE_DEBUG=1 || exit 2
build libcheck libcheck/Cargo.toml env CARGO_PROFILE_RELEASE_DEBUG_ASSERTIONS=true CARGO_PROFILE_RELEASE_OVERFLOW_CHECKS=true || rm -f build/libcheck/release/libcheck
build libjobs libjobs/Cargo.toml env CARGO_PROFILE_RELEASE_DEBUG_ASSERTIONS=true CARGO_PROFILE_RELEASE_OVERFLOW_CHECKS=true || rm -f build/libjobs/release/libjobs
build driver driver/Cargo.toml env || exit 2
if [ ! build/shim.so -nt shim/shim.c ]; then
    gcc -O1 -g -Wall -Wno-format-truncation -shared -fPIC -o build/shim.so.new shim/shim.c -ldl || exit 2
    mv build/shim.so.new build/shim.so
fi
echo "$h" >build/repo.hash
# thorough tier only: sanitizer builds (the standard library with them for ThreadSanitizer, whose
# locks it must see); without them the checks that use them go on with the other builds
san() { # name, manifest, sanitizer, further arguments
    local n=$1 m=$2 s=$3
    shift 3
    if [ "$h" != "$(cat "build/$n.hash" 2>/dev/null)" ]; then
        rm -rf "$V/build/$n"
        env RUSTUP_TOOLCHAIN=nightly RUSTFLAGS="-Zsanitizer=$s" CARGO_PROFILE_RELEASE_DEBUG=1 CARGO_PROFILE_RELEASE_DEBUG_ASSERTIONS=true CARGO_PROFILE_RELEASE_OVERFLOW_CHECKS=true timeout 600 \
            cargo build --quiet --release --offline --manifest-path "$m" --target-dir "$V/build/$n" --target x86_64-unknown-linux-gnu "$@" \
            >"build/$n.log" 2>&1 || { echo "no $s build, going on without it (build/$n.log)" >&2; rm -rf "$V/build/$n"; return; }
        echo "$h" >"build/$n.hash"
    fi
}
case "$1" in
    asan) san asan /repo/Cargo.toml address ;;
    tsan) san libjobs-tsan libjobs/Cargo.toml thread -Zbuild-std ;;
esac
