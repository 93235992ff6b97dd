#!/bin/bash
# run with cwd = the rtforth tree; exit 0 when the behaviour is right
here=$(cd "$(dirname "$0")" && pwd)
export PATH=/root/.cargo/bin:/usr/local/cargo/bin:$PATH
export RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
repo=$PWD
w=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$w"' EXIT
mkdir -p "$w/src" "$w/scratch"
cp "$here/demo.rs" "$w/src/main.rs"
cp "$repo/examples/vm.rs" "$w/src/vm.rs"
cp "$repo/Cargo.lock" "$w/Cargo.lock" 2>/dev/null
cat > "$w/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2018"
[workspace]
[dependencies]
rtforth = { path = "$repo" }
hibitset = { version = "0.6.3", default-features = false }
EOF
CARGO_TARGET_DIR="$w/target" cargo build --offline -q --manifest-path "$w/Cargo.toml" || exit 3
cd "$w/scratch" && timeout 60 "$w/target/debug/demo"
