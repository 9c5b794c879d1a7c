#!/bin/bash
# Build the monitor (and /repo's crates, from its current working tree).
set -u
VERIF="$(cd "$(dirname "$0")" && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
T="${CARGO_TARGET_DIR:-/repo/target}"
mkdir -p "$T"
exec 9>"$T/.pvmon.lock"; flock 9
# cargo decides by modification times: make sure that changed content is rebuilt even if the times are old
H=$(cd /repo && find . -path ./target -prune -o -path ./.git -prune -o -type f \( -name '*.rs' -o -name 'Cargo.toml' -o -name 'Cargo.lock' \) -print0 | sort -z | xargs -0 sha256sum | sha256sum)
if [ -f "$T/.pvmon-src-hash" ] && [ "$(cat "$T/.pvmon-src-hash")" != "$H" ]; then
  for l in /repo/*/src/lib.rs; do touch -c "$l"; done
  touch -c "$VERIF/harness/src/main.rs"  # (some of the sources are included by the monitor)
fi
cd "$VERIF/harness" && cargo build --offline 2>"$T/pvmon-build.log" || { grep -E '^error' -A9 "$T/pvmon-build.log" | head -60 >&2; exit 2; }
echo "$H" > "$T/.pvmon-src-hash"
