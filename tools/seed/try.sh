#!/bin/bash
# try.sh <id> [check] [more properties]: development aid. The change in
# $DEV/repo (a copy of /repo) becomes seeded/<id>'s patch; runs the tests with
# it, the demonstration on both trees, and then the property's check in a copy
# of the simulator built against the changed copy ($DEV/verif/sim).
DEV="${DEV:-/tmp/dev}"
id="$1"; S=/verif/seeded/$id; here="$(cd "$(dirname "$0")" && pwd)"
cp -n "$here/mk.rs" "$here/demo.sh" "$S/" 2>/dev/null
cd "$DEV/repo" || exit 1
if [ "$2" != "check" ]; then
git diff > "$S/patch.diff"
[ -s "$S/patch.diff" ] || { echo "no change"; exit 1; }
(. /opt/vp/env.sh
cargo test --workspace --no-fail-fast --offline -- --test-threads 8 > /tmp/w.log 2>&1
echo "tests: rc=$? $(grep -c ' \.\.\. FAILED' /tmp/w.log) failed"; grep ' \.\.\. FAILED' /tmp/w.log | head; grep -E '^error' -A5 /tmp/w.log | head -20
bash "$S/demo.sh" > /tmp/demo.out 2>&1; echo "demo patched rc=$? (want nonzero): $(tail -2 /tmp/demo.out | cut -c1-300)"
(cd /repo && bash "$S/demo.sh" > /tmp/demo2.out 2>&1; echo "demo clean rc=$? (want 0): $(tail -2 /tmp/demo2.out| cut -c1-300)"))
else
git checkout -q -- . && git apply "$S/patch.diff" || exit 1
fi
p=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
mkdir -p "$DEV/verif/sim"
(cd /verif && tar cf - --exclude=sim/target sim KNOWN_FINDINGS.jsonl) | (cd "$DEV/verif" && tar xf -)
for q in $p $3; do (cd "$DEV/verif"; echo "--- $q"; timeout 800 bash sim/check.sh $q 2>&1 | cut -c1-400 | tail -4); done
git -C "$DEV/repo" checkout -q -- .
