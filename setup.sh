#!/bin/bash
# Builds the symbolic executor (the checks build the harnesses themselves, against /repo's tree).
set -e
cd "$(dirname "$0")/engine"
RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true cargo build --release --offline
