#!/bin/bash
# miri-be.sh <jobs> <inputs>: runs jobs under Miri, as a big-endian machine.
set -u
root="${VERIF_ROOT:-/verif}"
export RUSTUP_TOOLCHAIN=nightly CARGO_NET_OFFLINE=true MIRI_SYSROOT="$root/target/miri-sysroot-be" CARGO_TARGET_DIR="$root/target/miri-be"
# What C02 looks for is not looked for here again, which makes this faster.
export MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-ignore-leaks -Zmiri-disable-stacked-borrows -Zmiri-disable-validation"
unset RUSTFLAGS
cd "$root/harness" && exec cargo miri run --offline -q -p host --target s390x-unknown-linux-gnu -- "$@"
