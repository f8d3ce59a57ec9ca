#!/bin/bash
# check.sh PROP|build: builds the simulator against /repo's working tree and runs the batch of PROP.
set -u
here=$(cd "$(dirname "$0")" && pwd)
cd "$here" || exit 2
export CARGO_TARGET_DIR="$here/target" CARGO_NET_OFFLINE=true SIM_OUT="$here"
export RUST_BACKTRACE=0 RUSTC_WRAPPER="$here/sim/rustc-cov.sh"
mkdir -p "$CARGO_TARGET_DIR"
# Always rebuild the crate under test, whatever the file times say.
rm -rf "$CARGO_TARGET_DIR"/release/.fingerprint/mqtt-*
if ! cargo build --release --offline --manifest-path sim/Cargo.toml >"$here/target/build.log" 2>&1; then
    cat "$here/target/build.log"
    exit 2
fi
[ "$1" = build ] && exit 0
exec "$CARGO_TARGET_DIR/release/sim" check "$1"
