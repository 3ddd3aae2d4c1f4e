#!/bin/bash
# build.sh CRATE [ENTRY...]: builds the harness crate against /repo and prepares
# the bitcode of the named entries (default: all of them).
# Result: $OUT/CRATE (native binary for replay) and $OUT/CRATE.bc (for llsym)
set -euo pipefail
C=$1
V=$(cd "$(dirname "$0")/.." && pwd)
OUT=${LLSYM_OUT:-$V/.build}
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
export RUSTFLAGS="-Awarnings"
unset CARGO_BUILD_TARGET CARGO_ENCODED_RUSTFLAGS RUSTC_WRAPPER || true
export LLSYM_OUT=$OUT
mkdir -p "$OUT"
SR=$(rustc --print sysroot)
BIN=$SR/lib/rustlib/x86_64-unknown-linux-gnu/bin
[ -e "$V/harness/$C/Cargo.lock" ] || cp /repo/Cargo.lock "$V/harness/$C/Cargo.lock"
export CARGO_TARGET_DIR=$OUT/t-$C
cd "$V/harness/$C"
if [ -x ./rustc.sh ]; then export RUSTC_WRAPPER=$PWD/rustc.sh; fi
[ -x ./prepare.sh ] && ./prepare.sh "$OUT"
rm -rf "$CARGO_TARGET_DIR/debug/deps/"*.lto.input.bc
# whatever was built from /repo is built again; only registry crates are reused
rm -rf "$CARGO_TARGET_DIR"/debug/.fingerprint/stylist* "$CARGO_TARGET_DIR"/debug/.fingerprint/h"$C"-* "$CARGO_TARGET_DIR"/debug/incremental
touch src/main.rs
cargo rustc --offline -q --bin h$C -- -C save-temps
cp "$CARGO_TARGET_DIR/debug/h$C" "$OUT/$C"
IN=$(ls -S "$CARGO_TARGET_DIR"/debug/deps/*.lto.input.bc | head -1)
KEEP=$({ if [ $# -gt 1 ]; then shift; printf '%s\n' "$@"; else "$OUT/$C"; fi; } | paste -sd,)
"$BIN/opt" -passes='internalize,globaldce' -internalize-public-api-list="$KEEP" "$IN" -o "$OUT/$C.a.bc"
FA=$("$BIN/llvm-nm" "$OUT/$C.a.bc" 2>/dev/null | awk '{print $NF}' | grep -E '4hash3sip.*6Hasher(5write|9write_str|6finish)|12default_hook' | sed 's/^/-force-attribute=/; s/$/:noinline/' || true)
"$BIN/opt" -passes='forceattrs,default<O1>' $FA -inline-threshold=10 -vectorize-loops=false -vectorize-slp=false "$OUT/$C.a.bc" -o "$OUT/$C.bc"
rm -f "$OUT/$C.a.bc"
find "$CARGO_TARGET_DIR" -name '*.bc' -delete
find "$CARGO_TARGET_DIR" -name '*.rcgu.o' -delete
