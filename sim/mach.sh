#!/bin/bash
# Builds the simulated machines, offline, under sim/target/mach: for each
# machine the standard library, boxcars from /repo's current tree and mach/,
# all to be interpreted by Miri; and the program as it is shipped on this one
# (plain: optimized, not instrumented, not interpreted). Leaves run-<machine>,
# how to run it: directory, program, arguments, one a line. Prints nothing unless it fails.
here="$(cd "$(dirname "$0")" && pwd)"
base="${CARGO_TARGET_DIR:-$here/target}/mach"
mkdir -p "$base"
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS RUSTC_WRAPPER RUSTC_WORKSPACE_WRAPPER MIRI_SYSROOT
export CARGO_NET_OFFLINE=true MIRIFLAGS=-Zmiri-disable-isolation
cd "$here/mach"
miri="$(rustup which --toolchain nightly miri)" || exit 1
one() {
  t="$1" profile="$2"
  export CARGO_TARGET_DIR="$base/$t" XDG_CACHE_HOME="$base/cache-$t"
  rm -f "$base/run-$t"
  if [ "$t" = plain ]; then
    cargo build --release --offline -q --target x86_64-unknown-linux-gnu >"$base/log-$t" 2>&1 || { cat "$base/log-$t"; return 1; }
    printf '%s\n' "$here/mach" "$CARGO_TARGET_DIR/x86_64-unknown-linux-gnu/release/mach" >"$base/run-$t"
    return
  fi
  # Running it once with no input makes what is missing of the standard
  # library and of the program, and checks that it starts.
  cargo +nightly miri run --profile "$profile" --target "$t" --offline -q </dev/null >"$base/hello-$t" 2>"$base/log-$t" || { cat "$base/log-$t"; return 1; }
  [ "$profile" = dev ] && profile=debug
  python3 - "$CARGO_TARGET_DIR/miri/$t/$profile/mach" "$XDG_CACHE_HOME/miri" "$miri" "$here/mach" >"$base/run-$t" <<'P'
import json, sys
a = json.load(open(sys.argv[1]))["args"]
a = [x for x in a if not x.startswith(("--error-format", "--json"))]
print("\n".join([sys.argv[4], sys.argv[3], "--sysroot", sys.argv[2]] + a))
P
}
pids=()
for t in "i686-unknown-linux-gnu dev" "s390x-unknown-linux-gnu dev" "powerpc-unknown-linux-gnu release" plain; do
  one $t >&2 &
  pids+=($!)
done
rc=0
for p in "${pids[@]}"; do wait "$p" || rc=1; done
exit $rc
