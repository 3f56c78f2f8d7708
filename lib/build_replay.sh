#!/bin/bash
# build_replay.sh OUTDIR GROUP: the same harness as an ordinary program, in the dev profile (overflow
# checks on) and in the profile users ship (off).  Prints nothing; binaries in OUTDIR/{dev,plain}.
set -eu
here=$(cd "$(dirname "$0")/.." && pwd)
mkdir -p "$1"; out=$(cd "$1" && pwd)
case "$2" in lex) h=harness;; *) h=harness-p;; esac
export RUSTUP_TOOLCHAIN=stable CARGO_TARGET_DIR="$out/target" CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS || true
cd "$here/$h"
rm -rf "$out"/target/*/.fingerprint/{joker,unjson,derive,easter,estree,esprit,vh,vp}-*
for p in dev plain; do
  cargo build --profile $p --bin replay --features native --offline -q >"$out/cargo.$p.log" 2>&1 || { tail -40 "$out/cargo.$p.log" >&2; exit 1; }
done
cp "$out/target/debug/replay" "$out/dev"
cp "$out/target/plain/replay" "$out/plain"
