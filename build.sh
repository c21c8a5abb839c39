#!/bin/bash
# Builds the simulator from /repo's current working tree (instrumented library, generated C header, C caller).
# usage: build.sh [PROFILE]   (prints nothing on success; the binary is target/sim/PROFILE/aga8sim)
cd "$(dirname "$0")" || exit 2
root=$PWD
profile=${1:-release}
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=$root/target/sim RUSTC_WRAPPER=$root/sim/rustc-wrap.sh
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
mkdir -p "$CARGO_TARGET_DIR"
# cargo trusts modification times; a check must see the tree as it is now
rm -rf "$CARGO_TARGET_DIR/$profile"/.fingerprint/aga8-* "$CARGO_TARGET_DIR/$profile"/.fingerprint/aga8sim-*
rm -f "$CARGO_TARGET_DIR/aga8.h" "$CARGO_TARGET_DIR/shim-build.log"
cd sim || exit 2
log=$CARGO_TARGET_DIR/build.log
unset AGA8_HEADER
cargo build --profile "$profile" --offline --locked -p aga8 >"$log" 2>&1 || { echo "build of the library failed"; tail -30 "$log"; exit 2; }
export AGA8_HEADER=$CARGO_TARGET_DIR/aga8.h
[ -f "$AGA8_HEADER" ] || { echo "no C header was generated"; exit 2; }
cargo build --profile "$profile" --offline --locked >"$log" 2>&1 || { echo "build of the simulator failed"; tail -40 "$log"; exit 2; }
