#!/bin/bash
# Builds the program beside this script against ./manul and runs it (cwd is the repository).
set -u
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
tmp="$(mktemp -d /tmp/demo.XXXXXX)"
trap 'rm -rf -- "$tmp"' EXIT
mkdir -p "$tmp/src"
cp "$here"/*.rs "$tmp/src/"
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$tmp/Cargo.lock"
cat > "$tmp/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[[bin]]
name = "demo"
path = "src/demo.rs"
[dependencies]
manul = { path = "$repo/manul", features = ["dev", "tokio"] }
serde = { version = "1", features = ["derive"] }
serde_json = "1"
signature = { version = "2", default-features = false, features = ["digest", "rand_core"] }
rand_core = { version = "0.6.4", default-features = false }
rand_chacha = { version = "0.3", default-features = false }
sha3 = { version = "0.10", default-features = false }
tokio = { version = "1", default-features = false, features = ["sync", "rt", "rt-multi-thread", "macros", "time"] }
tokio-util = { version = "0.7", default-features = false }
[profile.dev]
debug = false
T
cd "$tmp" || exit 2
CARGO_TARGET_DIR="$tmp/target" cargo build --offline --quiet 2>"$tmp/build.log" || { cat "$tmp/build.log"; echo "the demonstration does not build"; exit 3; }
timeout 120 "$tmp/target/debug/demo"
