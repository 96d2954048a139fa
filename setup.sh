#!/bin/bash
# Builds every check once, so that each run only rebuilds what changed in /repo.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
export HOME="${HOME:-/root}"
export PATH="/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin:${PATH:-}"
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export CARGO_TARGET_DIR="$here/target" VERIF_ROOT="$here"
unset OBJECT_TESTFILES_UPDATE RUSTFLAGS CARGO_BUILD_RUSTFLAGS CARGO_INCREMENTAL CARGO_PROFILE_DEV_DEBUG
mkdir -p "$here/out" "$here/evidence"
. "$here/tools/freshen.sh"
freshen "$here" || true
(cd "$here/harness" && cargo build --offline -q -p checks --bins) || exit 1
for s in "$here"/tools/setup-*.sh; do
  [ -x "$s" ] || continue
  "$s" || exit 1
done
exit 0
