#!/bin/bash
# Builds demo.rs against the rexecutor crate of the current directory and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
work=$(mktemp -d) || exit 3
trap 'rm -rf "$work"' EXIT
mkdir -p "$work/src"
cp "$here/demo.rs" "$work/src/main.rs"
cp "$repo/Cargo.lock" "$work/Cargo.lock"
cat > "$work/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2024"
[workspace]
[dependencies]
rexecutor = { path = "$repo/rexecutor" }
async-trait = "0.1"
chrono = "0.4"
cron = "0.16"
futures = "0.3"
serde = { version = "1", features = ["derive"] }
serde_json = "1"
tokio = { version = "1", features = ["rt", "rt-multi-thread", "macros", "sync", "time", "test-util"] }
T
cd "$work" || exit 3
CARGO_TARGET_DIR="$work/target" cargo build --offline --release -q || exit 3
timeout 200 "$work/target/release/demo"
