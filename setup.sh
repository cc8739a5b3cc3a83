#!/bin/bash
# builds the conformance harness against /repo (every check does so again)
set -e
cd "$(dirname "$0")"
. /opt/vp/env.sh 2>/dev/null || true
export HOME=${HOME:-/root}
cd harness
cargo build --offline --locked --target-dir ../target
