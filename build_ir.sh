#!/bin/bash
# build_ir.sh BIN OUT.ll : whole-program LLVM IR of one symbolic harness, from /repo's current sources
set -e
BIN=$1; OUT=$2
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true
V=$(cd "$(dirname "$0")" && pwd)
cd "$V/hsym"
[ -f Cargo.lock ] || cp /repo/Cargo.lock Cargo.lock
rm -f target/release/deps/$BIN-*.bc target/release/deps/$BIN-*
cargo rustc --offline --release --bin $BIN -- -C save-temps -C linker=/bin/true -C no-vectorize-loops -C no-vectorize-slp
L=$(rustc --print sysroot)/lib/rustlib/x86_64-unknown-linux-gnu/bin
BC=$(ls target/release/deps/$BIN-*.lto.input.bc | head -1)
$L/opt --strip-debug -passes='internalize,globaldce,strip-dead-prototypes' --internalize-public-api-list=main $BC -o $OUT.bc
$L/llvm-dis $OUT.bc -o $OUT
rm -f $OUT.bc target/release/deps/$BIN-*
