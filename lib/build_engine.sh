#!/bin/bash
# build_engine.sh: the symbolic executor, in /verif/build/engine
set -eu
here=$(cd "$(dirname "$0")/.." && pwd)
export RUSTUP_TOOLCHAIN=stable CARGO_TARGET_DIR="$here/build/engine" CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS || true
mkdir -p "$here/build"
cd "$here/engine"
cargo build --release --offline -q 2>"$here/build/engine.log" || { tail -40 "$here/build/engine.log" >&2; exit 1; }
