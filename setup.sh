#!/bin/bash
# builds the symbolic executor and the dependencies of the harnesses; every check rebuilds what changed
set -e
V=$(cd "$(dirname "$0")" && pwd)
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET RUSTC_WRAPPER CARGO_ENCODED_RUSTFLAGS
for d in hsym hnat lexgen; do [ -f "$V/$d/Cargo.lock" ] || cp /repo/Cargo.lock "$V/$d/Cargo.lock"; done
(cd "$V/engine" && cargo build --release --offline)
(cd "$V/hnat" && cargo build --offline --bin c01)
(cd "$V/lexgen" && cargo build --offline)
bash "$V/build_ir.sh" c01 /tmp/setup-$$.ll
/bin/rm -f /tmp/setup-$$.ll
