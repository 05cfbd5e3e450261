#!/bin/bash
# Builds a scratch copy of the repository's library (cwd) with main.rs beside this script as an example program
# and runs it. Exit 0: the property held in the demonstrated case.
set -eu
here=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root} RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export PATH=/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin
w=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$w"' EXIT
mkdir "$w/ferrite" "$w/scratch"
python3 "$here/lay.py" "$w/ferrite"
mkdir "$w/ferrite/examples"
cp "$here/main.rs" "$w/ferrite/examples/demo.rs"
export CARGO_TARGET_DIR=${DEMO_TARGET:-$w/target}
cd "$w/ferrite"
cargo build --offline -q --example demo --config 'profile.dev.debug=0' --config 'profile.dev.incremental=false' 2> "$w/log" || { tail -30 "$w/log"; exit 3; }
cp "$CARGO_TARGET_DIR/debug/examples/demo" "$w/demo"
cd "$w/scratch"
exec 9>&1
timeout 120 "$w/demo"
