#!/bin/bash
# builds demo.rs against the modules of bfffs-core that compile here and runs it
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/ws/env.sh
t=$(mktemp -d)
trap 'find "$t" -delete' EXIT
mkdir "$t/src"
cp "$here/demo.rs" "$t/src/main.rs"
cp /opt/vp/ws/Cargo.lock "$t/Cargo.lock"
cat > "$t/Cargo.toml" <<E
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
bfffs-core = { path = "/opt/vp/ws/gen/bfffs-core" }
divbuf = { version = "0.4.0", features = ["experimental"] }
fixedbitset = { version = "0.4.0", default-features = false }
downcast = "0.11"
futures = "0.3.31"
metrohash = "1"
serde = "1"
serde_derive = "1"
speedy = "0.8"
tracing = { version = "0.1", features = ["attributes"] }
E
export CARGO_TARGET_DIR="$t/target"
cd "$t" && cargo build --offline -q 2>&1 || exit 3
timeout 120 "$t/target/debug/demo"
