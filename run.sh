#!/bin/bash
# Builds one check from /repo's current tree and runs it.
#   run.sh <ID> [--one part:case]
# Exit 0: held on everything explored; 1 with a VIOLATION line: broken; 2: no answer.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
id="$1"; shift
export HOME="${HOME:-/root}"
export PATH="/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin:${PATH:-}"
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export CARGO_TARGET_DIR="$here/target" VERIF_ROOT="$here"
unset OBJECT_TESTFILES_UPDATE RUSTFLAGS CARGO_BUILD_RUSTFLAGS CARGO_INCREMENTAL CARGO_PROFILE_DEV_DEBUG
bin="$(echo "$id" | tr 'A-Z' 'a-z')"
. "$here/tools/freshen.sh"
freshen "$here" || true
if [ -x "$here/tools/pre-$bin.sh" ]; then
  "$here/tools/pre-$bin.sh" "$@" ; rc=$?
  if [ $rc -ne 0 ]; then exit $rc; fi
fi
log="$here/out/build-$bin.log"
mkdir -p "$here/out" "$here/evidence"
if ! (cd "$here/harness" && cargo build --offline -q -p checks --bin "$bin") >"$log" 2>&1; then
  # The code under test may have failed to compile; that is no verdict.
  tail -40 "$log" >&2
  echo "INCONCLUSIVE property=$id: build failed" >&2
  exit 2
fi
exec "$CARGO_TARGET_DIR/debug/$bin" "$@"
