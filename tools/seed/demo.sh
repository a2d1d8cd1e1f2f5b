#!/bin/bash
# Builds main.rs against the library in the current directory and runs it.
D="$(cd "$(dirname "$0")" && pwd)"
R="$(pwd)"
T="$(mktemp -d)" || exit 2
trap 'rm -rf "$T"' EXIT
export PATH="$HOME/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true RUSTC_WRAPPER=
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
mkdir "$T/src"
cp "$D"/*.rs "$T/src/"
cat > "$T/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
boxcars = { path = "$R" }
serde_json = "1"
[profile.dev]
opt-level = 1
debug = false
overflow-checks = false
debug-assertions = false
[workspace]
EOF
cd "$T" || exit 2
CARGO_TARGET_DIR="$T/target" timeout 280 cargo run --offline -q
