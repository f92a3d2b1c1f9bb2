#!/usr/bin/env python3
"""writes seeded/<id>/ from the definitions in tools/bugs/*.py files that define B(...) entries: gen.py [ids...]"""
import json, os, shutil, subprocess, sys, tempfile, glob
V = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
BUGS = []
def B(id, prop, edits, needs, breaks, main, features="", std=True):
    BUGS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, main=main, features=features, std=std))
for f in sorted(glob.glob(f"{V}/tools/bugs/b_*.py")): exec(open(f).read())
DEMO = '''#!/bin/bash
# exit 0: behaves as declared. Builds a small program against ./binread in a scratch directory.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
mkdir "$t/src"
cp "$here/main.rs" "$t/src/main.rs"
cat > "$t/Cargo.toml" <<END
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
binread = { path = "$repo/binread"FEAT }
END
cd "$t" || exit 3
export CARGO_TARGET_DIR="$t/target" CARGO_NET_OFFLINE=true
unset RUSTFLAGS
timeout 250 cargo run --offline -q
'''
want = set(sys.argv[1:])
w = tempfile.mkdtemp()
subprocess.run(["git", "clone", "-q", "/repo", w + "/r"], check=True)
for b in BUGS:
    if want and b["id"] not in want: continue
    d = f"{V}/seeded/{b['id']}"
    for f, old, new in b["edits"]:
        p = f"{w}/r/{f}"
        s = open(p).read()
        assert s.count(old) == 1, (b["id"], f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.run(["git", "-C", w + "/r", "diff"], capture_output=True, text=True).stdout
    subprocess.run(["git", "-C", w + "/r", "checkout", "-q", "--", "."], check=True)
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(diff)
    feat = ("" if b["std"] else ", default-features = false") + (f', features = [{", ".join(json.dumps(x) for x in b["features"].split())}]' if b["features"] else "")
    open(d + "/demo.sh", "w").write(DEMO.replace("FEAT", feat))
    os.chmod(d + "/demo.sh", 0o755)
    open(d + "/main.rs", "w").write(b["main"].strip() + "\n")
    json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
shutil.rmtree(w)
