#!/bin/bash
# Warms the build once; every check builds what it needs by itself as well.
set -e
cd "$(dirname "$0")"
. /opt/vp/env.sh >/dev/null 2>&1 || true
export CARGO_NET_OFFLINE=true
unset RUSTFLAGS
(cd loc && CARGO_TARGET_DIR=../target/loc cargo build --offline)
