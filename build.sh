#!/bin/bash
# Build the harness from /repo's working tree and produce its LLVM IR.
# usage: build.sh VARIANT   (default | cap)
set -e
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true
V=${1:-default}
HERE=$(cd "$(dirname "$0")" && pwd)
SYS=$(rustc --print sysroot)
BIN=$SYS/lib/rustlib/x86_64-unknown-linux-gnu/bin
export CARGO_TARGET_DIR=$HERE/target/$V
export RUSTFLAGS="-A warnings -C no-vectorize-loops -C no-vectorize-slp"
FEAT=""
[ "$V" = cap ] && FEAT="--features cap"
[ "$V" = dump ] && FEAT="--features dump"
mkdir -p "$CARGO_TARGET_DIR"
rm -f "$CARGO_TARGET_DIR"/release/deps/lisoharness*.bc
cd "$HERE/harness"
cargo rustc --offline --release --quiet $FEAT -- -C save-temps
BC=$(ls -t "$CARGO_TARGET_DIR"/release/deps/lisoharness*cgu.0.rcgu.bc 2>/dev/null | head -1)
if [ -z "$BC" ]; then
  # up to date, but the bitcode was removed: force
  touch src/lib.rs
  cargo rustc --offline --release --quiet $FEAT -- -C save-temps
  BC=$(ls -t "$CARGO_TARGET_DIR"/release/deps/lisoharness*cgu.0.rcgu.bc | head -1)
fi
"$BIN/llvm-dis" "$BC" -o "$CARGO_TARGET_DIR/h.ll"
rm -f "$CARGO_TARGET_DIR"/release/deps/lisoharness*.rcgu.* "$CARGO_TARGET_DIR"/release/deps/lisoharness*.bc.tmp
