#!/bin/bash
# Builds main.rs as a small program against the tree in the current directory and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export HOME=/root PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=stable RUSTC_WRAPPER= CARGO_NET_OFFLINE=true CARGO_PROFILE_DEV_DEBUG=line-tables-only
export CARGO_TARGET_DIR=$repo/target-common
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
mkdir "$d/src" && cp "$here/main.rs" "$d/src/main.rs" && cp "$repo/Cargo.lock" "$d/"
cat > "$d/Cargo.toml" <<T
[package]
name = "seed-demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
flarch = { path = "$repo/flarch" }
flcrypto = { path = "$repo/flcrypto" }
flmodules = { path = "$repo/flmodules" }
flnode = { path = "$repo/flnode" }
anyhow = "1"
bytes = "1"
async-trait = "0.1"
rand = "0.8"
futures = "0.3"
tokio-tungstenite = "0.26"
serde_json = "1"
serde_yaml = "0.8"
rmp-serde = "1"
tokio = { version = "1", features = ["full", "test-util"] }
T
cd "$d" && cargo build --offline -q || exit 3
cd "$d" && TMPDIR=$d timeout 120 "$CARGO_TARGET_DIR/debug/seed-demo"
