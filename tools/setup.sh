#!/bin/bash
# builds the replay harness from /repo's working tree; the checks rebuild it incrementally
set -e
H="$(cd "$(dirname "$0")/../harness" && pwd)"
. /opt/vp/env.sh
cd "$H"
cargo build --offline --bin replay
command -v tlc >/dev/null
