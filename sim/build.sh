#!/bin/bash
# Builds the simulator from /repo's current tree. Output under sim/target.
set -e
here="$(cd "$(dirname "$0")" && pwd)"
cd "$here"
export CARGO_TARGET_DIR="${CARGO_TARGET_DIR:-$here/target}"
export RUSTC_WRAPPER="$here/sancov-rustc.sh"
unset RUSTC_WORKSPACE_WRAPPER CARGO_ENCODED_RUSTFLAGS
unset RUSTFLAGS
export CARGO_NET_OFFLINE=true
# Cargo does not see changes of the wrapper.
mkdir -p "$CARGO_TARGET_DIR"
if ! cmp -s "$here/sancov-rustc.sh" "$CARGO_TARGET_DIR/wrapper"; then
  rm -rf "${CARGO_TARGET_DIR:?}/x86_64-unknown-linux-gnu"
  cp "$here/sancov-rustc.sh" "$CARGO_TARGET_DIR/wrapper"
fi
exec cargo build --release --offline -q -p harness --target x86_64-unknown-linux-gnu
