#!/bin/bash
# Builds the memory walker for Miri and AddressSanitizer.
set -u
root="$(cd "$(dirname "$0")/.." && pwd)"
export VERIF_ROOT="$root" CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS
log="$root/out/build-mem.log"
mkdir -p "$root/out"
: > "$log"
export MIRI_SYSROOT="$root/target/miri-sysroot"
if [ ! -d "$MIRI_SYSROOT/lib" ]; then
  (cd "$root/harness" && RUSTUP_TOOLCHAIN=nightly cargo miri setup -q) >>"$log" 2>&1
fi
rc=0
(cd "$root/harness" && RUSTUP_TOOLCHAIN=nightly RUSTFLAGS="-Zsanitizer=address -Cforce-frame-pointers=yes" \
  CARGO_TARGET_DIR="$root/target/asan" cargo build --offline -q -p mem --target x86_64-unknown-linux-gnu) >>"$log" 2>&1 & a=$!
"$root/tools/miri.sh" probe >>"$log" 2>&1 & b=$!
for p in $a $b; do wait $p || rc=1; done
if [ $rc -ne 0 ]; then
  tail -30 "$log" >&2
  echo "INCONCLUSIVE property=C02: build failed" >&2
  exit 2
fi
exit 0
