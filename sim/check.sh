#!/bin/bash
# check.sh <property> [--replay <file>] [boxsim check options]
# Builds the simulator against /repo's current tree and runs one check, or
# replays one recorded violation.
here="$(cd "$(dirname "$0")" && pwd)"
export VERIF_DIR="$(dirname "$here")"
[ "$1" = "--thorough" ] && { export VERIF_TIER=thorough; shift; }
id="$1"; shift
if ! bash "$here/build.sh" >&2; then
  echo "ERROR: the simulator does not build against /repo" >&2
  exit 2
fi
if [ "$id" = C22 ] && ! bash "$here/mach.sh" >&2; then
  echo "ERROR: the simulated machines cannot be built" >&2
  exit 2
fi
sim="${CARGO_TARGET_DIR:-$here/target}/x86_64-unknown-linux-gnu/release/boxsim"
cd "$VERIF_DIR"
if [ "$1" = "--replay" ]; then
  exec "$sim" exec "$id" "$2"
fi
exec "$sim" check "$id" "$@"
