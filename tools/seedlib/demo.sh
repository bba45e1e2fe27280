#!/bin/bash
# Runs demo.rs against the ntfs crate in the current directory. Exit 0: the property holds in the demonstrated case.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
mkdir -p "$t/src"
cp "$here"/*.rs "$t/src/"
mv "$t/src/demo.rs" "$t/src/main.rs"
cat > "$t/Cargo.toml" <<TOML
[package]
name = "harness"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
ntfs = { path = "$repo", features = ["std", "time"] }
binrw = { version = "0.12", default-features = false }
nt-string = { version = "0.1.1", features = ["alloc"] }
time = { version = "0.3", features = ["large-dates"], default-features = false }
[profile.dev]
debug = false
TOML
cp "$here/lock" "$t/Cargo.lock"
CARGO_TARGET_DIR="$t/target" cargo run --offline --quiet --manifest-path "$t/Cargo.toml"
