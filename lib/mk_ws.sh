#!/bin/bash
# mk_ws.sh: /repo's crates as one workspace that builds with the libraries at hand, in build/ws-par.
# Sources are /repo's own, by symbolic link; two of them cannot be used as they are without network:
# the derive macros are written for a version of syn that is not here (two names are adapted), and
# the tristate crate is replaced by an equivalent.
set -eu
here=$(cd "$(dirname "$0")/.." && pwd)
w="$here/build/ws-par"
mkdir -p "$w/crates/derive/src" "$w/crates/tristate/src" "$w/esprit"
for c in joker unjson easter estree; do ln -sfn "/repo/crates/$c" "$w/crates/$c"; done
put() { cat > "$1.new"; if cmp -s "$1.new" "$1"; then rm -f "$1.new"; else mv "$1.new" "$1"; fi; }
sed 's/is_shorthand: true/is_shorthand: true, attrs: vec![]/; s/BlockCheckMode::Default/Unsafety::Normal/' /repo/crates/derive/src/lib.rs | put "$w/crates/derive/src/lib.rs"
put "$w/crates/derive/Cargo.toml" <<'X'
[package]
name = "derive"
version = "0.0.1"
[lib]
proc-macro = true
[dependencies]
syn = { version = "0.11.11", features = ["full", "parsing", "printing"] }
quote = "0.3.10"
X
put "$w/crates/tristate/Cargo.toml" <<'X'
[package]
name = "tristate"
version = "0.1.1"
X
put "$w/crates/tristate/src/lib.rs" <<'X'
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum TriState { Yes, No, Unknown }
impl From<bool> for TriState {
    fn from(b: bool) -> TriState { if b { TriState::Yes } else { TriState::No } }
}
X
put "$w/esprit/Cargo.toml" <<'X'
[package]
name = "esprit"
version = "0.0.5"
[lib]
path = "/repo/src/lib.rs"
[dependencies]
serde = "0.8"
serde_json = "0.8"
tristate = { path = "../crates/tristate" }
unjson = { path = "../crates/unjson" }
joker = { path = "../crates/joker" }
easter = { path = "../crates/easter" }
estree = { path = "../crates/estree" }
X
