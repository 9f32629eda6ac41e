#!/bin/bash
# Builds, from /repo's current working tree: the harness `xg`, execgraph-remote and the python module.
# All output goes to /verif/build (git-ignored). Prints compiler errors and exits 1 if something fails.
set -e
V="$(cd "$(dirname "$0")" && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export CARGO_TARGET_DIR="${VERIF_TARGET:-$V/build/target}"
mkdir -p "$CARGO_TARGET_DIR"
exec 9>"$CARGO_TARGET_DIR/.xgbuild.lock"
flock 9
(cd "$V/harness" && cargo build --offline -q 2>&1 | grep -E '^error' -A12 || true; test "${PIPESTATUS[0]}" = 0)
(cd "$V/harness" && cargo build --offline -q 2>/dev/null)
(cd /repo && cargo build --lib --bins --locked --offline -q 2>/dev/null)
