#!/bin/bash
# Build the engine, the harness variants and their native replay programs.
set -e
cd "$(dirname "$0")"
cargo build --release --offline --quiet --manifest-path engine/Cargo.toml
for v in default cap; do
  ./build.sh $v
  native/mk.sh $v
done
