# sourced: toolchain of the baseline, offline, own target directory
export PATH="$HOME/.cargo/bin:/usr/local/bin:/usr/bin:/bin:$PATH"
export RUSTUP_TOOLCHAIN=1.88.0
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=1 RUSTC_WRAPPER=
export VERIF_DIR="${VERIF_DIR:-/verif}"
export CARGO_TARGET_DIR="$VERIF_DIR/build/target"
unset RUSTFLAGS
