#!/bin/bash
# Builds the crate with several sets of features.
set -u
root="$(cd "$(dirname "$0")/.." && pwd)"
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTUP_TOOLCHAIN=stable RUSTFLAGS=-Awarnings CARGO_INCREMENTAL=0 CARGO_PROFILE_DEV_DEBUG=0
mkdir -p "$root/target/feat" "$root/out"
one() {
  local set="$1" features="$2" d="$root/target/feat/$1"
  mkdir -p "$d"
  if (cd "$root/harness" && CARGO_TARGET_DIR="$d" cargo build --offline -q -j2 -p feat --no-default-features --features "$features") >"$d/log" 2>&1; then
    ln -f "$d/debug/feat" "$d/feat"
  else
    rm -f "$d/feat"
  fi
}
export -f one; export root
xargs -P 8 -L 1 bash -c 'one "$1" "$2"' _ < "$root/tools/feature-sets"
if [ ! -x "$root/target/feat/all/feat" ] || [ ! -x "$root/target/feat/plain/feat" ]; then
  tail -20 "$root/target/feat/all/log" "$root/target/feat/plain/log" >&2
  echo "INCONCLUSIVE property=C30: build failed" >&2
  exit 2
fi
exit 0
