#!/bin/bash
# try.sh ID...: applies each planted bug to /repo, confirms it (build, stable tests, demo), runs its property's check, undoes it
V=$(cd "$(dirname "$0")/../.." && pwd)
[ -z "$(git -C /repo status --short)" ] || { echo "/repo not clean"; exit 3; }
trap 'git -C /repo checkout -q -- .' EXIT
for id in "$@"; do
  d=$V/seeded/$id; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  r="$id $p:"
  (cd /repo && bash "$d/demo.sh" >/tmp/demo.$id.log 2>&1) && r="$r clean-demo-ok" || r="$r CLEAN-DEMO-FAILS"
  git -C /repo apply "$d/patch.diff" || { echo "$r does not apply"; continue; }
  if bash /opt/vp/build.sh >/tmp/b.$id.log 2>&1; then
    bash /opt/vp/test.sh /tmp/t.$id.json >/dev/null 2>&1
    r="$r $(python3 - <<P
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']);o=set(json.load(open('/tmp/t.$id.json'))['passed'])
m=sorted(b-o); print('tests-ok' if not m else 'TESTS-FAIL '+' '.join(m[:4]))
P
)"
  else r="$r DOES-NOT-BUILD"; fi
  (cd /repo && bash "$d/demo.sh" >/tmp/demo.$id.log 2>&1) && r="$r DEMO-PASSES" || r="$r demo-fails($(grep -m1 -A1 panicked /tmp/demo.$id.log | tail -1 | cut -c1-80))"
  s=$(date +%s)
  (cd "$V" && ./run.sh $p > /tmp/c.$id.log 2>&1); rc=$?
  echo "$r check rc=$rc $(grep -c "^VIOLATION property=$p" /tmp/c.$id.log) $(( $(date +%s) - s ))s"
  git -C /repo checkout -q -- .
done
