#!/bin/bash
# Builds the simulator together with /repo's working tree, offline.
cd "$(dirname "$0")" || exit 2
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
export RUSTC_WRAPPER="$PWD/rustc-wrap.sh"
export CARGO_TARGET_DIR="${SIM_TARGET:-/verif/target}"
export OPENSSL_NO_VENDOR=1
unset RUSTFLAGS CARGO_PROFILE_DEV_DEBUG CARGO_INCREMENTAL
# cargo judges by time stamps; judge by content as well
mkdir -p "$CARGO_TARGET_DIR"
now=$( (cd /repo && find src Cargo.toml -type f -print0 | sort -z | xargs -0 sha256sum) | sha256sum)
if [ "$now" != "$(cat "$CARGO_TARGET_DIR/.repo-hash" 2>/dev/null)" ]; then
    rm -rf "$CARGO_TARGET_DIR"/debug/.fingerprint/starry-* "$CARGO_TARGET_DIR"/debug/.fingerprint/starry_glue-*
    rm -f "$CARGO_TARGET_DIR/.repo-hash"
fi
cargo build --offline "$@" || exit 1
echo "$now" >"$CARGO_TARGET_DIR/.repo-hash"
