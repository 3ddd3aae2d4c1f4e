#!/bin/bash
# Builds the symbolic executor and, once, the harness crates with their registry
# dependencies; every check builds whatever of this is missing, and always builds
# what comes from /repo again.
set -e
cd "$(dirname "$0")"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true RUSTFLAGS=-Awarnings
CARGO_TARGET_DIR=${LLSYM_OUT:-$PWD/.build}/t-engine cargo build --release --offline -q --manifest-path engine/Cargo.toml
for c in core mgr yew macros dom ssr csr ctr; do
    bash harness/build.sh "$c" >/dev/null 2>&1 || echo "$c is built by its checks"
done
