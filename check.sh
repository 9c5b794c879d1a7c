#!/bin/bash
# check.sh <PROPERTY> <quick|thorough> [extra pvmon arguments]
# Builds the monitor against /repo's working tree and runs one property.
set -u
VERIF="$(cd "$(dirname "$0")" && pwd)"
ID="$1"; TIER="${2:-${VERIF_TIER:-quick}}"; shift; shift || true
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
"$VERIF/build.sh" || { echo "check.sh: the monitor could not be built against /repo" >&2; exit 2; }
BIN="${CARGO_TARGET_DIR:-/repo/target}/debug/pvmon"
exec "$BIN" run "$ID" --tier "$TIER" --seed "${VERIF_SEED:-1}" --verif "$VERIF" "$@"
