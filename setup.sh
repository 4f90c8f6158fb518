#!/bin/bash
# builds the extractor and the witness harness from the committed files
set -e
cd "$(dirname "$0")"
export CARGO_NET_OFFLINE=true
cargo build --offline --release --manifest-path extract/Cargo.toml
cargo build --offline --manifest-path witness/Cargo.toml
cargo build --offline --manifest-path /repo/Cargo.toml --target-dir witness/target/repo -p pw_patch -p pw_diff
