#!/bin/bash
# developer helper: build
cd /verif/harness
RUSTFLAGS="--cfg verif_hooks" cargo build --offline --profile ${1:-checked} --features ${3:-all,wide} --target-dir /verif/target 2>&1 | grep -E -A12 "^error" | head -${2:-80}
