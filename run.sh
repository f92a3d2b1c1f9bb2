#!/bin/bash
# run.sh ID [tier]  -- rebuilds the check for ID from /repo's working tree and runs it.
# Exit 0: held on everything explored. Exit 1 with a VIOLATION line: broken. Anything else: no verdict.
cd "$(dirname "$0")" || exit 3
export VERIF_DIR="$PWD"
ID=$1
TIER=${2:-${VERIF_TIER:-quick}}
export VERIF_TIER=$TIER
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET
mkdir -p out/replay evidence target
. ./build.inc
# a process ended by one of these signals was brought down by the code under test: overflowed stack, abort, bad access
finish() {
  "$@"; local rc=$?
  case $rc in
    132|134|136|139)
      local f="$VERIF_DIR/out/replay/$ID-signal.txt"
      echo "property $ID: the code under test ended the checking process with signal $((rc-128)) (overflowed stack, abort or bad access); run again: $*" | tee "$f"
      echo "VIOLATION property=$ID replay=$f"
      exit 1 ;;
  esac
  exit $rc
}
# the library compiles but declarations in the bounded space, all of which it has to accept, no longer do
refused() {
  local log=$1 f="$VERIF_DIR/out/replay/$ID-refused.txt"
  grep -qE '^ +--> .*/out/[a-z0-9]+\.rs:' "$log" || return 1
  # (an error in them means that the library itself has been compiled)
  { echo "property $ID: the library compiles, but declarations it has to accept are refused by the compiler (configuration $2):"
    grep -B1 -A8 -E '^ +--> .*/out/[a-z0-9]+\.rs:' "$log" | head -60; } | tee "$f"
  echo "VIOLATION property=$ID replay=$f"
}
main() {
  case "$ID" in
    C18) exec python3 tools/c18.py ;;
    C20) exec python3 tools/c20.py ;;
    C22) build_sched || { echo "build failed"; exit 2; }; finish "$VERIF_DIR/target/sched/debug/sched" ;;
  esac
  local cfg=std
  case "$ID" in C17) cfg=nostd ;; C21) cfg=dt ;; esac
  build $cfg "$(feat $cfg)" "$(low "$ID")" 2>/dev/null || { refused "target/$(dirfor $cfg)/.log" $cfg && exit 1; cat "target/$(dirfor $cfg)/.log" >&2; echo "build failed"; exit 2; }
  finish "$VERIF_DIR/target/$(dirfor $cfg)/debug/$(low "$ID")"
}
main
