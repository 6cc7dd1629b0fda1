#!/bin/bash
# Builds main.rs (beside this script) against the library in the current directory and runs it.
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
mkdir -p "$t/src"; cp "$here/main.rs" "$t/src/main.rs"
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$t/Cargo.lock"
cat > "$t/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
stratum-dsp = { path = "$repo" }
serde_json = "1"
serde = "1"
log = { version = "0.4", features = ["std"] }
[profile.dev]
opt-level = 1
debug = false
[workspace]
T
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$t/target"
cargo build --offline -q --manifest-path "$t/Cargo.toml" || exit 2
timeout 120 "$t/target/debug/demo"
