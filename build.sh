#!/bin/bash
# Builds the simulator together with /repo's current working tree.
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
export HOME=${HOME:-/root} PATH="/root/.cargo/bin:/usr/local/bin:${PATH:-/usr/bin:/bin}"
export RUSTUP_TOOLCHAIN=1.89.0 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER="$here/rustc.sh"
export CARGO_TARGET_DIR="$here/target" RUSTFLAGS='--cfg ftml_sim -Awarnings'
cd "$here/harness" || exit 2
cargo build --offline --quiet || { echo "build failed" >&2; exit 2; }
