#!/usr/bin/env python3
"""C18: the same executions under every feature configuration, outcome by outcome."""
import json, os, re, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
V = os.environ.get("VERIF_DIR", "/verif")
TIER = os.environ.get("VERIF_TIER", "quick")
RUNS = [("std", "std", False), ("nostd", "nostd", False), ("cg", "cg", False), ("nostdcg", "nostdcg", False),
        ("dt", "dt", False), ("dt+output", "dt", True), ("all+output", "all", True)]
t0 = time.time()
cfgs = sorted({c for _, c, _ in RUNS})
def sh(c): return f'cd {V} && export TIER={TIER} && . ./build.inc && build {c} "$(feat {c})" c18 && echo target/$(dirfor {c})'
ps = {c: subprocess.Popen(["bash", "-c", sh(c)], stdout=subprocess.PIPE, text=True) for c in cfgs}
dirs = {}
for c, p in ps.items():
    o = p.communicate()[0]
    if p.returncode:
        d = subprocess.run(["bash", "-c", f"cd {V} && export TIER={TIER} && . ./build.inc && echo target/$(dirfor {c})"], stdout=subprocess.PIPE, text=True).stdout.split()
        log = open(f"{V}/{d[0]}/.log").read()
        if re.search(r"^ +--> .*/out/[a-z0-9]+\.rs:", log, re.M):
            # the library compiles in this configuration, but declarations it has to accept do not
            f = f"{V}/out/replay/C18-refused.txt"
            txt = f"property C18: configuration {c} refuses declarations it has to accept\n" + "\n".join(log[log.find("error"):].splitlines()[:60])
            os.makedirs(os.path.dirname(f), exist_ok=True)
            open(f, "w").write(txt + "\n"); print(txt); print(f"VIOLATION property=C18 replay={f}"); sys.exit(1)
        if re.search(r"^error[^\n]*\n +--> /repo/binread(_derive)?/src/", log, re.M) and ps["std"].wait() == 0:
            # the library compiles with default features only
            f = f"{V}/out/replay/C18-refused.txt"
            txt = f"property C18: the library does not compile in configuration {c}, and does in the default one\n" + "\n".join(log[log.find("error"):].splitlines()[:60])
            os.makedirs(os.path.dirname(f), exist_ok=True)
            open(f, "w").write(txt + "\n"); print(txt); print(f"VIOLATION property=C18 replay={f}"); sys.exit(1)
        print(log); print("build failed:", c); sys.exit(2)
    dirs[c] = os.path.join(V, o.strip().splitlines()[-1])
parts, digests = [], {}
def env(name, out, **k):
    e = dict(os.environ, MC_CFG=name, VERIF_DIR=V, **k)
    if out: e["MC_TEMPLATE"] = "1"
    else: e.pop("MC_TEMPLATE", None)
    return e
os.makedirs(f"{V}/out/replay", exist_ok=True)
def one(run):
    name, c, out = run
    ev, dg = f"{V}/out/c18-{name}.json", f"{V}/out/c18-{name}.dig"
    for f in (ev, dg):
        if os.path.exists(f): os.remove(f)
    return subprocess.run([f"{dirs[c]}/debug/c18"], env=env(name, out, MC_EVIDENCE=ev, MC_DIGEST=dg), stdout=subprocess.PIPE, text=True)
with ThreadPoolExecutor(3) as pool: results = list(pool.map(one, RUNS))
for (name, c, out), r in zip(RUNS, results):
    ev, dg = f"{V}/out/c18-{name}.json", f"{V}/out/c18-{name}.dig"
    if -r.returncode in (4, 6, 8, 11):
        f = f"{V}/out/replay/C18-signal.txt"
        open(f, "w").write(f"property C18: configuration {name}: the code under test ended the checking process with signal {-r.returncode}\n")
        print(r.stdout); print(open(f).read() + f"VIOLATION property=C18 replay={f}"); sys.exit(1)
    if r.returncode != 0:
        print(f"configuration {name}:"); print(r.stdout)
        sys.exit(r.returncode)
    parts.append((name, json.load(open(ev))))
    digests[name] = [l.split() for l in open(dg)]
base = digests["std"]
bad = []
for name in digests:
    d = digests[name]
    if [x[0] for x in d] != [x[0] for x in base]: print("work items differ in", name); sys.exit(3)
    for a, b in zip(base, d):
        if a != b: bad.append((name, int(a[0]))); break
for name, k in bad[:3]:
    c, out = next((c, o) for n, c, o in RUNS if n == name)
    ta = subprocess.run([f"{dirs['std']}/debug/c18"], env=env("std", False, MC_TRAIL=str(k)), stdout=subprocess.PIPE, text=True).stdout.splitlines()
    tb = subprocess.run([f"{dirs[c]}/debug/c18"], env=env(name, out, MC_TRAIL=str(k)), stdout=subprocess.PIPE, text=True).stdout.splitlines()
    i = next((i for i, (a, b) in enumerate(zip(ta, tb)) if a != b), min(len(ta), len(tb)))
    head = [l for l in ta[:40] if not l.startswith("  Ok(") and not l.startswith("  Err(")]
    txt = "\n".join([f"property C18: configurations std and {name} differ (work item {k}, execution {i})"] + head + ["std:  " + (ta[i] if i < len(ta) else "-"), f"{name}: " + (tb[i] if i < len(tb) else "-"), f"replay: MC_TRAIL={k} target/.../c18 in both configurations"])
    p = f"{V}/out/replay/C18-{name}-{k}.txt"
    open(p, "w").write(txt + "\n")
    print(txt); print(f"VIOLATION property=C18 replay={p}")
ev = dict(parts[0][1])
cov = dict(ev["coverage"])
for key in ("transitions", "traces_validated_against_impl", "work_items", "states"):
    cov[key] = sum(p["coverage"][key] for _, p in parts)
cov["parts"] = [f"{n}: " + "; ".join(p["coverage"]["parts"]) for n, p in parts]
cov["configurations"] = len(parts)
cov["outcome_sequences_compared_between_configurations"] = len(base) * (len(parts) - 1)
for n, p in parts:
    if "template_bytes_written" in p["coverage"]: cov[f"template_bytes_written_{n}"] = p["coverage"]["template_bytes_written"]
cov["exhaustive"] = all(p["coverage"]["exhaustive"] for _, p in parts) and not bad
ev["coverage"] = cov; ev["violations"] = len(bad); ev["wall_s"] = round(time.time() - t0, 3)
os.makedirs(f"{V}/evidence", exist_ok=True)
json.dump(ev, open(f"{V}/evidence/C18.json", "w"), indent=1)
print(f"C18 {TIER}: {len(parts)} configurations, {cov['traces_validated_against_impl']} executions, {len(base)} outcome sequences each, {time.time()-t0:.1f}s")
sys.exit(1 if bad else 0)
