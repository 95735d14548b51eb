cd /verif && RUSTUP_TOOLCHAIN=nightly CARGO_TARGET_DIR=/verif/target/vx cargo build --offline --manifest-path vx/Cargo.toml 2>&1 | grep -E "^error" -A8
