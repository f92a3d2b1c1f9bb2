#!/bin/bash
# ptry.sh LOG ID...: like try.sh, several at once, each in a copy of /repo and /verif mounted over the originals in a namespace
LOG=$1; shift
N=${SLOTS:-4}
: > "$LOG"
q=$(mktemp -d /tmp/ptry.XXXXXX); printf '%s\n' "$@" > "$q/list"
one() {
  w=/tmp/ptry-slot$1
  mkdir -p $w/repo $w/verif
  rsync -a --delete /repo/ $w/repo/ 2>/dev/null || { find $w/repo -mindepth 1 -delete; cp -a /repo/. $w/repo/; }
  rsync -a --delete /verif/ $w/verif/ 2>/dev/null || { find $w/verif -mindepth 1 -delete; cp -a /verif/. $w/verif/; }
  while true; do
    id=$(flock "$q/lock" bash -c "head -1 $q/list; sed -i 1d $q/list"); [ -n "$id" ] || break
    unshare -Urm bash -c "mount --bind $w/repo /repo && mount --bind $w/verif /verif && /verif/tools/bugs/try.sh $id" >> "$LOG" 2>&1
  done
}
for k in $(seq $N); do one $k & sleep 0.2; done
wait
find "$q" -delete
