#!/bin/sh
# Builds the framework from the committed files (offline). The checks build what they need
# themselves; this only verifies the tool chain and warms the build directory.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence replays
cd harness && RUSTFLAGS=-Awarnings CARGO_TARGET_DIR=../target CARGO_NET_OFFLINE=true \
    cargo build --offline --locked --lib >/dev/null 2>&1 || { echo "setup: build failed" >&2; exit 1; }
