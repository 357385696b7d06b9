#!/bin/bash
# run.sh <base|full> <run|replay|list> [ARG]: build the harness crate against /repo's current tree, then run it.
here=$(cd "$(dirname "$0")" && pwd)
crate=$1; shift
export VERIF_DIR="$here" CARGO_TARGET_DIR="$here/target/$crate" RUSTFLAGS="--cap-lints warn" CARGO_NET_OFFLINE=true
log="$here/target/$crate.build.log"
mkdir -p "$here/target" "$here/evidence" "$here/replays"
build() { (cd "$here/harness/$crate" && cargo build --offline --locked "$@") >"$log" 2>&1; }
# base: where the modules it includes have come to need others, it takes them from the whole crate
if ! build && ! { [ "$crate" = base ] && { build --features whole || build --features patterns; }; }; then
  grep -E "^error" -A8 "$log" | head -60
  echo "ERROR: $crate does not build against /repo"
  exit 3
fi
exec "$CARGO_TARGET_DIR/debug/v$crate" "$@"
