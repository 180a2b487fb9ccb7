# Sourced by the checks with $VERIF set. Everything they build lives in $VERIF/.build (ignored by git).
export PATH="/root/.cargo/bin:$PATH"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 CARGO_TERM_COLOR=never RUSTC_WRAPPER=
unset CARGO_PROFILE_DEV_DEBUG CARGO_BUILD_TARGET CARGO_ENCODED_RUSTFLAGS
export BUILD="$VERIF/.build"
export CARGO_TARGET_DIR="$BUILD/target"
export YAMON_ZOO_DIR="$BUILD/zoo"
export RUSTFLAGS="--cfg yaserde_verif -Awarnings"
