#!/bin/bash
# check.sh <property-id> [quick|thorough]
# Rebuilds the monitor of one property against /repo's current working tree
# and runs it.  exit 0 held / 1 VIOLATION / other = inconclusive or error.
set -u
ID=${1:?usage: check.sh ID [quick|thorough]}
TIER=${2:-${VERIF_TIER:-quick}}
ROOT=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root}
export FQMON_ROOT=$ROOT VERIF_TIER=$TIER VERIF_SEED=${VERIF_SEED:-1}
. "$ROOT/build_env.sh"
bin=$(echo "$ID" | tr 'A-Z' 'a-z')
log=$ROOT/harness/target/build.$bin.log
mkdir -p "$ROOT/harness/target" "$ROOT/evidence" "$ROOT/replays"
sync_fingerprint || { echo "INCONCLUSIVE property=$ID cannot fingerprint /repo" >&2; exit 4; }
if ! (cd "$ROOT/harness" && cargo build --release --offline --bin "$bin") >"$log" 2>&1; then
  echo "INCONCLUSIVE property=$ID the monitor does not build against /repo:" >&2
  tail -40 "$log" >&2
  exit 4
fi
case $TIER in thorough) lim=14400 ;; *) lim=800 ;; esac
ulimit -v 20000000
ulimit -c 0
timeout -k 10 "$lim" "$ROOT/harness/target/release/$bin"
rc=$?
if [ $rc -eq 124 ] || [ $rc -eq 137 ]; then
  echo "INCONCLUSIVE property=$ID watchdog: run exceeded ${lim}s" >&2
  exit 5
fi
exit $rc
