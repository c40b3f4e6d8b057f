#!/bin/bash
# developer helper: m.sh FEATURES ARGS... runs the harness under Miri
cd /verif/harness
f=$1; shift
export RUSTFLAGS="--cfg verif_hooks -Awarnings --cfg harness_san"
export MIRIFLAGS="${MIRIFLAGS:--Zmiri-disable-isolation -Zmiri-ignore-leaks}"
cargo +nightly miri run -q --offline --features $f --target-dir /verif/target-miri -- "$@" 2>&1 | tail -${T:-3} | cut -c1-${W:-400}
