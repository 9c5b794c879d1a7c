#!/bin/bash
# Exit 0 if the behaviour is right, nonzero if not.
D="$(cd "$(dirname "$0")" && pwd)"
. /opt/vp/env.sh
S="$(mktemp -d)"; trap 'rm -rf "$S"' EXIT
cp -r "$D/." "$S/"
cp /repo/Cargo.lock "$S/Cargo.lock"
cd "$S" && cargo build --offline --bin vpdemopy >"$S/build.log" 2>&1 || { tail -20 "$S/build.log"; exit 9; }
mkdir -p "$S/out"
OUT="$S/out" "$CARGO_TARGET_DIR/debug/vpdemopy" "$S/check.py"
