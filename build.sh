#!/bin/bash
# Builds the simulator together with the library from /repo's current working tree.
cd "$(dirname "$0")/sim" || exit 2
export RUSTUP_TOOLCHAIN=nightly-2023-10-11 CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=/verif/target
export CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
exec cargo build --release --offline --locked "$@"
