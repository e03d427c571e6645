#!/bin/bash
# builds the simulator from /repo's current working tree
cd "$(dirname "$0")" || exit 3
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true
unset CARGO_TARGET_DIR RUSTFLAGS
exec cargo build --release --offline "$@"
