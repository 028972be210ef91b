#!/bin/bash
# run with cwd = the repository: exit 0 if the property holds for this scenario
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
export HOME=/root PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=1.97.0 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
work=$(mktemp -d /tmp/demo.XXXXXXXX) || exit 99
trap 'rm -rf "$work"' EXIT
mkdir -p "$work/src" && cp -r "$here/stubs" "$work/stubs" && cp "$here/host.rs" "$work/src/" || exit 99
sed "s#@REPO@#$repo#g" "$here/main.rs" > "$work/src/main.rs"
cat > "$work/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[features]
default = ["tokio", "tokio-util"]
tokio = []
tokio-util = []
tokio-test-util = []
serde = []
[dependencies]
wasm-bindgen = "0.2"
js-sys = "0.3"
futures = "0.3"
parking_lot = "0.12"
pin-utils = "0.1"
slab = "0.4"
serde = { version = "1", default-features = false }
serde_json = "1"
wasmtimer = { path = "$repo"@FEATURES@ }
[patch.crates-io]
wasm-bindgen = { path = "stubs/wasm-bindgen" }
js-sys = { path = "stubs/js-sys" }
T
cp "$here/Cargo.lock" "$work/" 2>/dev/null
export CARGO_TARGET_DIR=$work/target
cargo build --offline --manifest-path "$work/Cargo.toml" > "$work/log" 2>&1 || { tail -40 "$work/log"; exit 98; }
timeout 60 "$work/target/debug/demo"
