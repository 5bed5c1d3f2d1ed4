export HOME=/root
export PATH=/root/.cargo/bin:/usr/local/bin:/usr/local/sbin:/usr/bin:/usr/sbin:/bin:/sbin
export RUSTUP_TOOLCHAIN=1.76.0
export CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 CARGO_TERM_COLOR=never RUSTC_WRAPPER= RUST_BACKTRACE=0
export CARGO_TARGET_DIR=/verif/target
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
