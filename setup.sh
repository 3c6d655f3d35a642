#!/bin/bash
# Builds the extractor and the bounded harness (each check builds them again if they are absent or stale).
cd "$(dirname "$0")" || exit 1
. /opt/vp/env.sh
export CARGO_NET_OFFLINE=true
(cd xlate && CARGO_TARGET_DIR=../.build/xlate cargo build --release --offline -q) || exit 1
(cd harness && CARGO_TARGET_DIR=../.build/harness cargo build --release --offline -q) || exit 1
/opt/veriftools/verus/verus --version >/dev/null || exit 1
echo ready
