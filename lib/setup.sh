#!/bin/bash
# Build the symbolic executor and warm the build folders; every check rebuilds what depends on /repo.
set -eu
here=$(cd "$(dirname "$0")/.." && pwd)
"$here/lib/build_engine.sh"
"$here/lib/build_ir.sh" "$here/build/ir-lex" lex
"$here/lib/build_replay.sh" "$here/build/replay-lex" lex
"$here/lib/mk_ws.sh"
"$here/lib/build_ir.sh" "$here/build/ir-par" par
"$here/lib/build_replay.sh" "$here/build/replay-par" par
