#!/bin/bash
# Build the harness (release) against /repo's current working tree, offline.
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
unset CARGO_TARGET_DIR RUSTFLAGS RUSTC_WRAPPER CARGO_ENCODED_RUSTFLAGS
cd "$here/mc" || exit 2
cargo build --release --offline --quiet 2>"$here/mc/build.log" || { cat "$here/mc/build.log" >&2; echo "BUILD FAILED" >&2; exit 2; }
