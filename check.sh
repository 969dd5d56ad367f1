#!/bin/bash
# check.sh <ID>: rebuild the harness against /repo's working tree and decide one property.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
. /opt/vp/env.sh
unset CARGO_PROFILE_DEV_DEBUG
export VERIF_ROOT="$here"
log="$(mktemp)"
if ! (cd "$here/harness" && cargo build --offline >"$log" 2>&1); then tail -50 "$log"; rm -f "$log"; echo "check error: harness does not build"; exit 2; fi
rm -f "$log"
ulimit -v 24000000 2>/dev/null
exec "$here/harness/target/debug/nbv" "$@"
