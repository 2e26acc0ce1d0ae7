#!/bin/bash
# Builds demo.rs against the rexecutor-sqlx crate of the current directory and a model of a PostgreSQL server, and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
work=$(mktemp -d) || exit 3
trap 'rm -rf "$work"' EXIT
mkdir -p "$work/src"
cp "$here/demo.rs" "$work/src/main.rs"
cp -r "$here/pgemu" "$work/pgemu"
sed -i "/^\[workspace\]/d" "$work/pgemu/Cargo.toml"
cp "$repo/Cargo.lock" "$work/Cargo.lock"
cat > "$work/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2024"
[workspace]
[dependencies]
rexecutor = { path = "$repo/rexecutor" }
rexecutor-sqlx = { path = "$repo/rexecutor-sqlx" }
pgemu = { path = "pgemu" }
async-trait = "0.1"
chrono = "0.4"
futures = "0.3"
serde = { version = "1", features = ["derive"] }
serde_json = "1"
sqlx = { version = "0.8.*", default-features = false, features = ["postgres", "runtime-tokio-native-tls", "uuid", "json", "chrono", "migrate"] }
tokio = { version = "1", features = ["rt", "rt-multi-thread", "macros", "sync", "time"] }
T
cd "$work" || exit 3
export WORK="$work"
CARGO_TARGET_DIR="$work/target" cargo build --offline -q || exit 3
timeout 100 "$work/target/debug/demo"
