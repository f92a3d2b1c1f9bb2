#!/bin/bash
# builds every check in every configuration
cd "$(dirname "$0")" || exit 3
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never TIER=quick
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET
mkdir -p out/replay evidence target
. ./build.inc
build std "$(feat std)" || exit 1
build_sched & pids+=($!)
extra() { case $1 in nostd) echo c17 ;; dt) [ -f mc/src/bin/c21.rs ] && echo c21 ;; esac; }
for c in nostd cg nostdcg dt all; do (build $c "$(feat $c)" c18 $(extra $c)) & pids+=($!); done
for p in "${pids[@]}"; do wait $p || exit 1; done
