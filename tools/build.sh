#!/bin/bash
# bash tools/build.sh CRATE...: builds harness crates of /verif/h against /repo's working tree.
# Extra rustc flags for one crate: h/CRATE/rustflags (own target directory then).
set -e
here=$(cd "$(dirname "$0")/.." && pwd)
. "$here/tools/env.sh"
mkdir -p "$here/build"
# cargo judges freshness by mtime; a tree that was copied or checked out may carry older mtimes.
# Compare the content, and drop the fingerprints of /repo's crates when it differs.
exec 9> "$here/build/lock"; flock 9
now=$(cd /repo && find fields starky algebraic algebraic-gpu recursion recursion-gnark groth16 zkit dsl_compile zkvm \
  \( -name '*.rs' -o -name Cargo.toml -o -name '*.go' -o -name go.mod \) -not -path '*/target/*' -print0 | sort -z | xargs -0 sha256sum | sha256sum)
for crate in "$@"; do
  tdir="$CARGO_TARGET_DIR"; flags=""
  if [ -f "$here/h/$crate/rustflags" ]; then
    flags=$(cat "$here/h/$crate/rustflags"); tdir="$CARGO_TARGET_DIR-$crate"
  fi
  [ -f "$here/h/$crate/toolchain" ] && export RUSTUP_TOOLCHAIN=$(cat "$here/h/$crate/toolchain") || export RUSTUP_TOOLCHAIN=1.88.0
  stamp="$here/build/stamp-$crate"
  if [ "$(cat "$stamp" 2>/dev/null)" != "$now" ]; then
    rm -f "$stamp"
    for c in fields starky algebraic algebraic-gpu recursion groth16 dsl_compile zkvm recursion-gnark-ffi vh-$crate; do
      rm -rf "$tdir"/release/.fingerprint/"$c"-[0-9a-f]*
    done
  fi
  [ -f "$here/h/$crate/env" ] && . "$here/h/$crate/env"
  [ -x "$here/h/$crate/prepare.sh" ] && "$here/h/$crate/prepare.sh"
  ( cd "$here/h/$crate" && RUSTFLAGS="$flags" CARGO_TARGET_DIR="$tdir" cargo build --release --offline --locked 2> "$here/build/log-$crate" ) || {
    tail -n 60 "$here/build/log-$crate" >&2; exit 2; }
  echo "$now" > "$stamp"
done
