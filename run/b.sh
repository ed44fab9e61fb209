#!/bin/bash
# developer convenience: b.sh [stable|nightly|wide|plain|tiny] [lines]
K=${1:-stable}; T=stable; F="--features $K"
[ $K = nightly ] && T=nightly; [ $K = stable ] && F=
cd /verif/harness && RUSTC_WRAPPER= RUSTFLAGS="--cfg eastl_verif" cargo +$T build --offline -q $F --target-dir target/$K 2>&1 | grep -A12 -E '^(error|warning: unused)' | head -${2:-60}
