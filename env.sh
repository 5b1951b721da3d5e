# Build environment of the simulator.
export RUSTUP_TOOLCHAIN=1.84-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 CARGO_TERM_COLOR=never
export CARGO_TARGET_DIR=/verif/target
unset CARGO_PROFILE_DEV_DEBUG RUSTC_WRAPPER
export RUSTFLAGS="--cfg hudi_sim"
