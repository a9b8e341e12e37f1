#!/bin/bash
# Builds main.rs beside this script against the crate in the current directory and runs it.
HERE="$(cd "$(dirname "$0")" && pwd)"
REPO="$PWD"
WORK="$(mktemp -d)" || exit 9
trap 'rm -rf "$WORK"' EXIT
mkdir "$WORK/src" "$WORK/scratch"
cp "$HERE"/*.rs "$WORK/src/"
cp "$REPO/Cargo.lock" "$WORK/"
cat > "$WORK/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2024"
[workspace]
[dependencies]
zippity = { path = "$REPO", features = ["tokio-file", "bytes", "actix-web", "chrono"] }
tokio = { version = "1.32.0", features = ["fs", "rt", "io-util", "sync"] }
actix-web = { version = "4.5.1", default-features = false }
bytes = "1.6.0"
futures-core = { version = "0.3.30", default-features = false }
crc32fast = "1.3.2"
chrono = { version = "0.4.39", default-features = false, features = ["std"] }
T
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$WORK/target" RUSTC_WRAPPER= CARGO_TERM_COLOR=never
cd "$WORK" || exit 9
cargo build --offline --quiet || exit 8
cd "$WORK/scratch" || exit 9
timeout 100 "$WORK/target/debug/demo"
