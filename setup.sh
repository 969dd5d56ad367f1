#!/bin/bash
# Builds the harness once so that the checks only have to rebuild what changed in /repo.
set -e
here="$(cd "$(dirname "$0")" && pwd)"
. /opt/vp/env.sh
unset CARGO_PROFILE_DEV_DEBUG
cd "$here/harness" && cargo build --offline
