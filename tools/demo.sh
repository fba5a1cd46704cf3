#!/bin/bash
# Runs demo.rs (beside this file) as a small program against the relp crate in the current directory.
HERE="$(cd "$(dirname "$0")" && pwd)"; REPO="$PWD"
T="$(mktemp -d)"; trap 'rm -rf "$T"' EXIT
mkdir "$T/src" && cp "$HERE/demo.rs" "$T/src/main.rs" || exit 9
cat >"$T/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
relp = { path = "$REPO" }
relp-num = "=0.1.13"
num-traits = "*"
[profile.dev]
debug = false
[workspace]
EOF
cp "$REPO/Cargo.lock" "$T/" 2>/dev/null || cp /opt/vp/Cargo.lock "$T/" 2>/dev/null
export RUSTUP_TOOLCHAIN=nightly-2025-03-01 CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$T/target" PATH="/root/.cargo/bin:$PATH"
cd "$T" && cargo build --offline >"$T/log" 2>&1 || { tail -30 "$T/log"; exit 8; }
timeout 120 "$T/target/debug/demo"
