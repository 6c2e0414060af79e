#!/bin/bash
# Builds demo.rs against the crate in the current directory and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
w=$(mktemp -d)
trap 'rm -rf "$w"' EXIT
mkdir "$w/src"
cp "$here/demo.rs" "$w/src/main.rs"
cp "$here/tb.rs" "$w/src/tb.rs"
cp "$repo/Cargo.lock" "$w/Cargo.lock"
cat > "$w/Cargo.toml" <<X
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
async-tiff = { path = "$repo", default-features = false, features = ["tokio"] }
async-trait = "0.1"
bytes = "1"
futures = "0.3"
tokio = { version = "1", features = ["rt", "sync", "io-util", "time", "macros"] }
X
export CARGO_NET_OFFLINE=true
cd "$w" && timeout 280 cargo run -q --offline --target-dir "$w/target" 2> "$w/err"
rc=$?
[ $rc -eq 0 ] || tail -5 "$w/err"
exit $rc
