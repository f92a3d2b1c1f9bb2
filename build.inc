# sourced by run.sh and setup.sh
low() { echo "$1" | tr A-Z a-z; }
srchash() { (cd /repo && find . -type f \( -name '*.rs' -o -name 'Cargo.toml' -o -name '*.md' \) -not -path './target/*' -not -path './.git/*' -print0 | sort -z | xargs -0 sha256sum | sha256sum | cut -d' ' -f1); }
# features of a configuration
feat() {
  local t=""; [ "$TIER" = thorough ] && t=",thorough"
  case $1 in
    std) echo "--no-default-features --features std$t" ;;
    nostd) echo "--no-default-features --features nostd$t" ;;
    cg) echo "--no-default-features --features std,cg$t" ;;
    nostdcg) echo "--no-default-features --features nostd,cg$t" ;;
    dt) echo "--no-default-features --features dt$t" ;;
    all) echo "--no-default-features --features dt,cg$t" ;;
  esac
}
dirfor() { local t=""; [ "$TIER" = thorough ] && t="-thorough"; echo "$1$t"; }
# build CONFIG "FEATURES" BIN... : cargo trusts time stamps, so what was built from other sources is dropped first
build() {
  local cfg=$1 features=$2 td h; shift 2
  td="$PWD/target/$(dirfor "$cfg")"
  mkdir -p "$td"
  exec 9>"$td/.lock"; flock 9
  h=$(srchash)
  if [ "$(cat "$td/.srchash" 2>/dev/null)" != "$h" ]; then
    rm -rf "$td"/debug/.fingerprint/binread* "$td/.srchash"
  fi
  local bins=(); for b in "$@"; do bins+=(--bin "$b"); done
  [ $# = 0 ] && bins=(--bins)
  (cd mc && cargo build --offline --locked -q --target-dir "$td" $features "${bins[@]}" 9>&-) >"$td/.log" 2>&1 || { grep -A12 "^error" "$td/.log" >&2; return 1; }
  echo "$h" > "$td/.srchash"
  exec 9>&-
}
# the interleaving explorer has a crate of its own, where binread is compiled against another standard library
build_sched() {
  local td="$PWD/target/sched" h
  mkdir -p "$td"
  exec 9>"$td/.lock"; flock 9
  h=$(srchash)
  if [ "$(cat "$td/.srchash" 2>/dev/null)" != "$h" ]; then rm -rf "$td"/debug/.fingerprint/binread* "$td/.srchash"; fi
  (cd sched && cargo build --offline --locked -q --target-dir "$td" 9>&-) >"$td/.log" 2>&1 || { grep -A12 "^error" "$td/.log" >&2; return 1; }
  echo "$h" > "$td/.srchash"
  exec 9>&-
}
