#!/bin/bash
# Builds the command line program of the repository in the current directory, and drives it with demo.py.
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
export PATH="$HOME/.cargo/bin:/root/.cargo/bin:$PATH" CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh >/dev/null 2>&1
cd "$repo"
log="$(mktemp)"
cargo build --offline --bin nb >"$log" 2>&1 || { tail -20 "$log"; rm "$log"; exit 3; }
rm "$log"
REPO="$repo" NB="${CARGO_TARGET_DIR:-$repo/target}/debug/nb" PYTHONDONTWRITEBYTECODE=1 timeout 100 python3 "$here/demo.py"
