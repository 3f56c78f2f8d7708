#!/bin/bash
# build_ir.sh OUTDIR GROUP: compile the harness crate of the group with /repo's current tree, link it
# with std and lower it to a simplified, scalarised LLVM module OUTDIR/m.ll.  No network; all output
# below OUTDIR (and build/ws-par, the workspace the parser group compiles).
set -eu
here=$(cd "$(dirname "$0")/.." && pwd)
mkdir -p "$1"; out=$(cd "$1" && pwd)
case "$2" in lex) h=harness;; *) h=harness-p;; esac
export RUSTUP_TOOLCHAIN=stable CARGO_TARGET_DIR="$out/target" CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS || true
cd "$here/$h"
rm -f "$out"/target/release/deps/*.bc "$out/m.ll"
# never trust time stamps: what comes from /repo is compiled again on every run
rm -rf "$out"/target/release/.fingerprint/{joker,unjson,derive,easter,estree,esprit,vh,vp}-*
cargo rustc --release --lib --crate-type staticlib --offline -q -- --cap-lints allow -C save-temps -C no-vectorize-loops -C no-vectorize-slp >"$out/cargo.log" 2>&1 || { tail -40 "$out/cargo.log" >&2; exit 1; }
bc=$(ls -t "$out"/target/release/deps/*after-restriction.bc | head -1)
bin=$(rustc --print sysroot)/lib/rustlib/x86_64-unknown-linux-gnu/bin
keep=$(grep -hoE 'fn (h_[a-z0-9_]+|sx_model_[a-z0-9_]+)' src/*.rs "$here/harness/src/model.rs" | awk '{print $2}' | sort -u | paste -sd,)
"$bin/opt" -passes='internalize,globaldce' -internalize-public-api-list="$keep" "$bc" -o "$out/a.bc"
"$bin/opt" -strip-debug -passes='function(sroa,early-cse,simplifycfg,instcombine<no-verify-fixpoint>,simplifycfg,scalarizer,adce),globaldce' "$out/a.bc" -o "$out/b.bc"
"$bin/llvm-dis" "$out/b.bc" -o "$out/m.ll"
rm -f "$out"/target/release/deps/*.bc "$out/a.bc" "$out/b.bc"
