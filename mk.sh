#!/bin/bash
# Developer helper: build the native checker.
export RUSTUP_TOOLCHAIN=nightly-2025-03-06 CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=/verif/.build/native
cd /verif/native && cargo build --offline 2>&1 | grep -E "^error" -A9 | head -${1:-60}
