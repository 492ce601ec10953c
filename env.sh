# Sourced by check.sh and setup.sh; also handy for building by hand
VERIF_DIR=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
export VERIF_DIR
export RUSTUP_TOOLCHAIN=1.94
export CARGO_TARGET_DIR=$VERIF_DIR/target
export CARGO_NET_OFFLINE=true
export CARGO_INCREMENTAL=0
export CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_BUILD_TARGET CARGO_ENCODED_RUSTFLAGS
