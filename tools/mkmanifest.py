#!/usr/bin/env python3
"""writes MANIFEST.json"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l)["id"] for l in open(f"{V}/properties.jsonl") if l.strip()]
ENUM = "bounded exhaustive exploration of executions of the real derive-generated code (stateless model checking: controlled reader, lazily decided input bytes and truncation points), judged against an explicit executable reference model run in lockstep"
T = {
 "C01": "stateless model checking with exhaustive fault injection: every failing reader call (1 and 2 per execution), every unreadable byte, every truncation, every start position",
 "C04": "stateless model checking of reader schedules: every placement of up to two short reads or interrupts, plus full chunking patterns, compared with the undisturbed execution",
 "C05": "stateless model checking with exhaustive fault injection, each faulted execution matched against the reference with the same fault",
 "C17": "explicit-state search over operation sequences of the no_std reader, run in lockstep with std::io on the real code of both",
 "C18": "exhaustive exploration of the same executions in seven feature configurations, outcome sequences compared execution by execution and with the reference",
 "C19": "exhaustive exploration of boundary values of every length and address with a counting, capping allocator and an operation budget",
 "C20": "exhaustive enumeration of declarations (directive x item kind x spelling, and directive pairs) run through the real compiler, judged against an acceptance table",
 "C21": "exhaustive exploration of executions, template output parsed and compared with the reference's trace of values read",
 "C22": "stateless model checking of thread interleavings: the real template module compiled against a controlled scheduler, all schedules up to the bound",
 "C23": "explicit exploration of all read histories up to a depth on one reader, against independent reads and the reference",
}
NOTE = "Decides the property for every declaration of its universe, every input and truncation and every environment behaviour in the stated bounds; nothing is claimed beyond those bounds. Trusts the reference model's reading of the documentation (validated on every execution against the real code), rustc, and the harness."
checks = []
claimed = [p for p in props if os.path.exists(f"{V}/mc/src/bin/{p.lower()}.rs") or os.path.exists(f"{V}/tools/{p.lower()}.py") or p == "C22"]
for p in claimed:
    checks.append({"property": p, "quick_cmd": f"./run.sh {p}", "thorough_cmd": f"./run.sh {p} thorough", "technique": T.get(p, ENUM), "level": "model_checking", "level_note": NOTE})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks,
     "not_applicable": [{"property": p, "reason": "check not built yet"} for p in props if p not in claimed],
     "notes": "No hooks in /repo: everything is observed through the public interface. See DESIGN.md."}
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks;", [x["property"] for x in m["not_applicable"]])
