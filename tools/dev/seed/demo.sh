#!/bin/bash
# Builds demo.rs against the crate in the current directory and runs it.
# Exit 0: behaves as the property says. Everything is built and run in a scratch directory.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
scratch=$(mktemp -d) || exit 2
trap 'rm -rf "$scratch"' EXIT
mkdir -p "$scratch/demo/src"
cp "$here/demo.rs" "$scratch/demo/src/main.rs"
cp "$here/common.rs" "$scratch/demo/src/common.rs"
cp "$here/Cargo.lock.in" "$scratch/demo/Cargo.lock"
lsp='{ path = "'"$repo"'" }'
grep -q "^//! agnostic" "$here/demo.rs" && lsp='{ path = "'"$repo"'", default-features = false, features = ["runtime-agnostic"] }'
cat > "$scratch/demo/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
tower-lsp = $lsp
tokio = { version = "1.17", features = ["rt-multi-thread", "macros", "time", "sync", "io-util"] }
futures = "0.3"
serde_json = "1"
serde = { version = "1", features = ["derive"] }
tower = { version = "0.4", default-features = false, features = ["util"] }
[profile.dev]
debug = false
[workspace]
TOML
export RUSTUP_TOOLCHAIN=nightly CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="${DEMO_TARGET:-$scratch/target}"
cd "$scratch/demo" || exit 2
cargo build --offline -q 2> "$scratch/log" || { tail -30 "$scratch/log"; exit 2; }
timeout 60 "$CARGO_TARGET_DIR/debug/demo"
