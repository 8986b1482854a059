#!/bin/bash
# Runs demo.rs against the crate in the current directory: exit 0 if the property holds.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export HOME=/root PATH="/root/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=1.85.1 CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_TARGET_DIR
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"
cp "$here/demo.rs" "$d/src/main.rs"
cp "$here/kit.rs" "$d/src/kit.rs"
cp "$repo/Cargo.lock" "$d/Cargo.lock"
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[profile.dev]
debug = false
[dependencies]
bromine = { path = "$repo", features = [$(cat "$here/features" 2>/dev/null)] }
tokio = { version = "1.35.1", features = ["net", "io-std", "io-util", "sync", "time", "macros", "rt", "rt-multi-thread"] }
async-trait = "0.1"
lazy_static = "1"
futures = "0.3"
bytes = "1"
serde = { version = "1", features = ["derive"] }
x25519-dalek = { version = "2", features = ["static_secrets"] }
T
cd "$d" || exit 99
cargo build -q --offline --target-dir "${DEMO_TARGET:-$d/target}" || exit 98
timeout 120 "${DEMO_TARGET:-$d/target}/debug/demo"
