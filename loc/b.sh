#!/bin/bash
. /opt/vp/env.sh; export CARGO_TARGET_DIR=/verif/target/loc
cd /verif/loc && cargo build --offline 2>&1 | grep -E "^(error|warning: unused)|Finished|^  *--> " -A6 | head -${1:-60}
