#!/bin/bash
# Run in the repository's root after its build. Exit 0: the property holds on the demonstrated input.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
mkdir "$t/src" "$t/scratch"
cp "$here/demo.rs" "$t/src/main.rs"
[ -f Cargo.lock ] && cp Cargo.lock "$t/Cargo.lock"
cat > "$t/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
pw_diff_lib = { path = "$repo/pw_diff_lib" }
pw_cub_diff_lib = { path = "$repo/pw_cub_diff_lib" }
T
cd "$t/scratch" || exit 2
export CARGO_TARGET_DIR="$t/target"
cargo build --offline -q --manifest-path "$t/Cargo.toml" || exit 2
timeout 60 "$t/target/debug/demo"
