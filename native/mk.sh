#!/bin/bash
# Build the native replay program for a variant from the same IR.
# usage: mk.sh VARIANT
set -e
HERE=$(cd "$(dirname "$0")" && pwd)
V=${1:-default}
D=$HERE/../target/$V
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
BIN=$(rustc --print sysroot)/lib/rustlib/x86_64-unknown-linux-gnu/bin
python3 "$HERE/instrument.py" "$D/h.ll" "$D/hn.ll"
"$BIN/llc" -O1 -filetype=obj -relocation-model=pic "$D/hn.ll" -o "$D/hn.o"
LIB=$(ls "$(rustc --print sysroot)"/lib/rustlib/x86_64-unknown-linux-gnu/lib/libcompiler_builtins-*.rlib)
gcc -O1 -w -rdynamic -o "$D/replay" "$HERE/rt.c" "$D/hn.o" "$LIB" -lpthread -ldl -lgcc_s -lm
rm -f "$D/hn.ll" "$D/hn.o"
