#!/bin/bash
# miri.sh <args of mem>: runs the memory walker under Miri.
set -u
root="${VERIF_ROOT:-/verif}"
export RUSTUP_TOOLCHAIN=nightly CARGO_NET_OFFLINE=true MIRI_SYSROOT="$root/target/miri-sysroot" CARGO_TARGET_DIR="$root/target/miri"
export MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-ignore-leaks"
unset RUSTFLAGS
cd "$root/harness" && exec cargo miri run --offline -q -p mem -- "$@"
