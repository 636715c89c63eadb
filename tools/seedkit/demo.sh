#!/bin/bash
# Runs the demonstration beside this file against /repo; 0: behaves, nonzero: broken.
here=$(cd "$(dirname "$0")" && pwd)
export RUSTUP_TOOLCHAIN=1.88.0 CARGO_NET_OFFLINE=true PATH="$HOME/.cargo/bin:$PATH"
unset RUSTFLAGS CARGO_TARGET_DIR
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
cp -r "$here/demo" "$t/demo"
cd "$t/demo" || exit 9
timeout 200 cargo build --release --offline --target-dir "$t/target" >"$t/log" 2>&1 || { tail -30 "$t/log"; exit 9; }
cd "$t" && timeout 60 "$t/target/release/demo"
