#!/bin/bash
# Builds the demonstration beside this file against the repository in the current directory, and runs it.
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
export PATH="$HOME/.cargo/bin:/root/.cargo/bin:$PATH" CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
d="$(mktemp -d /tmp/nbdemo.XXXXXX)"
mkdir "$d/src"
cp "$here/demo.rs" "$d/src/main.rs"
cp "$here/mini.rs" "$d/src/mini.rs"
[ -f "$here/editor.js" ] && cp "$here/editor.js" "$d/src/"
cp "$repo/Cargo.lock" "$d/Cargo.lock" 2>/dev/null
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2024"
[workspace]
[dependencies]
netsblox-vm = { path = "$repo", default-features = false, features = ["std", "serde"] }
rand = { version = "0.9", default-features = false }
serde_json = "1.0"
bincode = "1.3.3"
gc-arena = "=0.5.3"
[profile.dev]
debug = 0
T
(cd "$d" && cargo run --offline -q 2>"$d/err")
rc=$?
[ $rc -ne 0 ] && grep -E -A6 "^error|panicked|got|want" "$d/err" | tail -80
rm -r "$d"
exit $rc
