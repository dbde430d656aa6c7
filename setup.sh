#!/bin/bash
# Builds every monitor from the committed files, offline.
set -u
ROOT=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root}
. "$ROOT/build_env.sh"
sync_fingerprint || exit 1
cd "$ROOT/harness" && cargo build --release --offline --bins
