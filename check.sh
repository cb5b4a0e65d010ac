#!/bin/bash
# check.sh ID TIER: rebuilds what the check of a property needs from /repo's
# working tree and runs it.  Exit 0: held; 1: VIOLATION; other: no answer.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
id="$1"
tier="${2:-${VERIF_TIER:-quick}}"
export VERIF_SEED="${VERIF_SEED:-1}"
export WSVERIF_ROOT="$here"
"$here/build.sh" "$id" >&2 || { echo "building the check failed" >&2; exit 3; }
mkdir -p "$here/evidence"
exec "$here/harness/target/debug/wsverif" check "$id" "$tier"
