#!/bin/bash
# Builds the workloads for a host with 32-bit pointers and for a big-endian one.
set -u
root="$(cd "$(dirname "$0")/.." && pwd)"
export VERIF_ROOT="$root" CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTUP_TOOLCHAIN=nightly
unset RUSTFLAGS
mkdir -p "$root/out"
wasm() {
  local sys="$root/target/wasm-sysroot" lib="$root/target/wasm-sysroot/lib/rustlib/wasm32-unknown-unknown/lib" src tmp
  if [ ! -f "$sys/done" ]; then
    # The standard library, unwinding included, from the toolchain's own sources.
    tmp="$root/target/wasm-std"
    mkdir -p "$tmp/p" "$lib"
    printf '[package]\nname = "empty"\nversion = "0.1.0"\nedition = "2024"\n[lib]\npath = "lib.rs"\n[workspace]\n[profile.dev]\nopt-level = 2\ndebug = false\noverflow-checks = true\n' > "$tmp/p/Cargo.toml"
    echo '#![no_std]' > "$tmp/p/lib.rs"
    src="$(rustc --print sysroot)/lib/rustlib/src/rust/library/vendor"
    (cd "$tmp/p" && RUSTFLAGS="-Cpanic=unwind" CARGO_TARGET_DIR="$tmp/t" cargo build --offline -q \
      --config 'source.crates-io.replace-with="v"' --config "source.v.directory='$src'" \
      -Zbuild-std=std,panic_unwind --target wasm32-unknown-unknown) || return 1
    find "$tmp/t/wasm32-unknown-unknown" \( -name '*.rlib' -o -name '*.rmeta' \) ! -name 'libempty*' -exec cp {} "$lib/" \;
    rm -rf "$root/target/wasm-std"
    touch "$sys/done"
  fi
  (cd "$root/harness" && RUSTFLAGS="--sysroot $sys -Cpanic=unwind -Clink-arg=-zstack-size=67108864 -Awarnings" CARGO_TARGET_DIR="$root/target/wasm" \
    cargo rustc --offline -q -p host --lib --crate-type cdylib --features ffi --target wasm32-unknown-unknown)
}
big_endian() {
  export MIRI_SYSROOT="$root/target/miri-sysroot-be"
  if [ ! -f "$MIRI_SYSROOT/done" ]; then
    (cd "$root/harness" && cargo miri setup -q --target s390x-unknown-linux-gnu) || return 1
    touch "$MIRI_SYSROOT/done"
  fi
  : > "$root/out/none"
  "$root/tools/miri-be.sh" "$root/out/none" "$root/out/none"
}
wasm >"$root/out/build-wasm.log" 2>&1 & a=$!
big_endian >"$root/out/build-be.log" 2>&1 & b=$!
rc=0
for p in $a $b; do wait $p || rc=1; done
if [ $rc -ne 0 ]; then
  tail -20 "$root/out/build-wasm.log" "$root/out/build-be.log" >&2
  echo "INCONCLUSIVE property=C29: build failed" >&2
  exit 2
fi
exit 0
