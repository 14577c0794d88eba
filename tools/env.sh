export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true RUSTFLAGS="--cfg pushcdn_verif" CARGO_TARGET_DIR=/verif/.build/target PUSHCDN_WS=/verif/.build/ws
