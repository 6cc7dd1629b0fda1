#!/bin/bash
# Builds the simulator with the library from /repo's working tree (instrumented), offline.
set -e
cd "$(dirname "$0")/sim"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
export CARGO_TARGET_DIR="$PWD/target"
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_RUSTFLAGS CARGO_INCREMENTAL
export RUSTC_WRAPPER="$PWD/rustc-wrap.sh"
mkdir -p target
# file times may mislead cargo: rebuild the library whenever its text changed
h=$( (cd /repo && find src Cargo.toml -type f -print0 | sort -z | xargs -0 sha256sum; cd - >/dev/null; cat rustc-wrap.sh) | sha256sum)
if [ "$(cat target/.repo-hash 2>/dev/null)" != "$h" ]; then
  rm -rf target/release/.fingerprint/stratum-dsp-* target/release/.fingerprint/sim-*
fi
cargo build --release --offline -q
printf '%s\n' "$h" > target/.repo-hash
